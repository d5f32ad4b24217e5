"""C30: documents built from shared inputs."""
import io

from verif_h.tab import jpeg
from verif_o.draw import draw, same_events, same_value

PROPERTY = 'C30'
BUDGET = {'quick': 200, 'thorough': 900}
BOUNDS = {'inputs': 'paragraphs, lists, tables, content boxes, whole documents with styles as dict, name and string, formats, running sections, page rules, footnotes, labels, links, outlines, borders, fills and images',
          'histories': 'the same objects used twice in a document, in two documents with the same or other settings, and a document built after another one; up to 60 uses of an image or group that does not fit at first',
          'sizes': 'page heights, font sizes, margins and colors symbolic'}
PATH_TIMEOUT = 100
TOL = 0.01
KINDS = ('text', 'table', 'box', 'flow', 'document', 'footnotes')


def configs(tier):
    q = tier == 'quick'
    out = []
    for k in KINDS:
        out.append(('unchanged', dict(k=k)))
        out.append(('again', dict(k=k)))
        out.append(('shared', dict(k=k)))
    for k in KINDS:
        for j in (KINDS if not q else (KINDS[(KINDS.index(k) + 1) % len(KINDS)], 'document')):
            out.append(('after', dict(k=k, j=j)))
    out += [('often', dict(k=k)) for k in ('image', 'group')]
    out += [('twice', {})]
    return out


# ------------------------------------------------------------------ inputs

class Val:
    """the values that differ between the paths"""

    def __init__(self, cx):
        self.s = cx.real('s', 6, 14)
        self.c = cx.real('c', 0, 1)
        self.m = cx.real('m', 0, 6)


def image(n=1, w=20, h=10):
    return {'image': io.BytesIO(jpeg(w, h, n)), 'extension': 'jpg', 'image_name': 'i%d' % n}


def make_text(v):
    return [{'.b': ['aa bb ', {'.i;u:1': 'cc dd', 'uri': 'http://u'}, {'.': ' ee', 'style': 'loud', 'label': 'l'}, ' ff'],
             'style': {'c': v.c}, 'label': 'm', 'outline': {'title': 'T', 'level': 1}},
            {'.': ['gg ', {'var': '$page'}, {'.': ' hh', 'ref': 'l'}], 'style': {'s': v.s}},
            ['ii ', {'.': 'jj', 'style': {'b': True}}], 'kk ll']


def make_table(v):
    return {'table': [[{'.b': 'aa bb cc', 'style': {'cell_margin': v.m, 's': v.s}}, ['dd ', {'.i': 'ee'}], image(1)],
                      [{'.': 'ff', 'colspan': 2, 'style': {'c': v.c, 'cell_fill': 0.9}}, None, 'gg hh'],
                      [{'content': [{'.': 'ii', 'style': {'c': v.c}}, 'jj kk', image(2)], 'style': {'s': 8}},
                       {'table': [['ll', {'.b': 'mm'}]], 'style': {'border_width': 2}}, {'.': 'nn', 'rowspan': 2}],
                      ['oo', {'.': 'pp', 'style': 'loud'}, None]],
            'widths': [1, 2, 1], 'style': {'cell_margin': 2, 'border_color': 'red', 'cell_fill': 0.8},
            'borders': [{'pos': 'v0,2;:', 'width': 2, 'color': [0, 0, 1]}, {'pos': 'h1', 'style': 'dashed'}],
            'fills': [{'pos': '0;1', 'color': 'yellow'}, {'pos': '1;', 'color': [0.5, v.c, 1]}]}


def make_box(v):
    return {'style': {'s': v.s, 'margin_bottom': 3}, 'cols': {'count': 2, 'gap': 6}, 'content': [
        {'.b': 'aa bb cc', 'style': {'c': v.c, 'text_align': 'j'}}, 'dd ee',
        {'.': 'ff gg', 'style': {'list_text': '- ', 'list_style': {'b': True}, 'list_indent': 8, 'margin_left': v.m}},
        {'table': [['hh', {'.b': 'ii'}]], 'style': {'cell_margin': 1, 'border_width': 1}, 'fills': [{'pos': '0;0', 'color': 0.9}]},
        {'content': [{'.i': 'jj', 'style': {'s': 8}}, 'kk'], 'style': {'indent': 3}}, ['ll ', {'.': 'mm', 'style': 'loud'}], 7]}


def make_flow(v):
    return {'style': {'margin_bottom': 2}, 'content': [
        {'.': 'aa', 'style': {'s': v.s}}, dict(image(1, 60, 20)), {'.': 'bb cc dd'}, dict(image(2, 60, 15), style={'image_place': 'normal'}), 'ee',
        {'group': [{'.': 'ff', 'style': {'c': v.c}}, dict(image(3, 60, 20), style={'min_height': 10})], 'style': {'margin_top': v.m}}, 'gg hh']}


def make_document(v):
    return {
        'style': {'s': v.s, 'margin': [12, 10], 'text_align': 'j', 'page_numbering_offset': 2},
        'formats': {'loud': {'b': True, 'c': 'red'}, 'quiet': {'c': v.c}},
        'running_sections': {'h': {'x': 'left', 'y': 2, 'height': 20, 'content': [{'.b': ['head ', {'var': '$page'}], 'style': {'s': 7}}]},
                             'f': {'x': 'left', 'y': 'bottom', 'height': 'bottom', 'style': {'c': v.c, 's': 6}, 'content': ['foot']}},
        'per_page': [{'pages': '1:', 'style': {'margin': {'top': 20, 'right': 10, 'bottom': 14, 'left': 15}}, 'running_sections': {'include': ['f'], 'exclude': []}}],
        'sections': [
            {'running_sections': ['h'], 'style': {'c': 0.2}, 'content': [{'.': 'aa bb cc dd', 'style': 'loud'}, {'.i': 'ee ff'}, ['gg ', {'.': 'hh', 'style': 'quiet'}]]},
            {'style': 'quiet', 'cols': {'count': 2}, 'content': [{'table': [['ii', 'jj']], 'style': {'cell_margin': 2}}, 'kk', {'content': ['ll', 'mm']}]}]}


def make_footnotes(v):
    note = {'.': 'note ww', 'style': {'c': v.c}}
    return {
        'style': {'s': v.s, 'margin': 10},
        'formats': {'loud': {'b': True}, '$footnotes': {'s': 7}},
        'sections': [
            {'content': [{'.': ['aa', {'footnote': 'note xx'}, ' bb cc']}, ['dd', {'footnote': note}], {'.': ['ee ff', {'footnote': ['n ', {'.b': 'yy'}]}], 'style': 'loud'}]},
            {'content': [['gg', {'footnote': {'.b': 'note zz', 'style': 'loud'}}, ' hh'], {'table': [[['ii', {'footnote': 5}], 'jj']], 'style': {'cell_margin': 1}}]}]}


MAKE = {'text': make_text, 'table': make_table, 'box': make_box, 'flow': make_flow, 'document': make_document, 'footnotes': make_footnotes}


# --------------------------------------------------------------- documents

def build(cx, k, inputs, h, size=10, times=1):
    """a document of the inputs, some settings being its own"""
    if k in ('document', 'footnotes'):
        d = dict(inputs, style=dict(inputs['style'], page_size=(130, h)))
        context = {'mine': 1}
        D = cx.mod('document').PDFDocument(d, context)
        D.run()
        cx.check(context == {'mine': 1}, 'the context passed is left as it is')
        return D.pdf
    pdf = cx.mod('pdf').PDF(page_size=(120, h), margin=5, font_size=size)
    pdf.formats['loud'] = {'b': True, 'c': 'red'}
    pdf.add_page()
    for _ in range(times):
        put(pdf, k, inputs)
    cx.check(pdf.formats == {'loud': {'b': True, 'c': 'red'}}, 'formats are left as they are')
    return pdf


def put(pdf, k, inputs):
    if k == 'text':
        style = {'b': True}
        for i, t in enumerate(inputs):
            pdf.text(t, list_text='*' if i == 1 else None, list_style=style if i == 1 else None)
        assert style == {'b': True}
    elif k == 'table':
        pdf.table(inputs['table'], **{x: y for x, y in inputs.items() if x != 'table'})
    else:
        pdf.content(inputs)


def unlike(a, b, path=''):
    """where two structures differ"""
    if isinstance(a, io.BytesIO):
        return None if isinstance(b, io.BytesIO) and a.getvalue() == b.getvalue() else path
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return '%s keys %s, not %s' % (path, list(a), list(b) if isinstance(b, dict) else b)
        pairs = [(x, a[x], b[x]) for x in a]
    elif isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return path + ' length'
        pairs = [(i, x, y) for i, (x, y) in enumerate(zip(a, b))]
    else:
        return None if (a is b or bool(a == b)) else path
    for x, y, z in pairs:
        r = unlike(y, z, '%s/%s' % (path, x))
        if r is not None:
            return r
    return None


def links(cx, doc, p):
    out = []
    f = doc.file
    for a in f.get(doc.pages[p].get('Annots')) or []:
        a = f.get(a)
        out.append([f.get(x) for x in f.get(a.get('Rect'))])
    return out


def same_pages(cx, x, y, msg):
    cx.check(len(x.pages) == len(y.pages), msg, 'pages')
    for p in range(len(x.pages)):
        cx.check(same_value(cx, x.pages[p]['MediaBox'], y.pages[p]['MediaBox'], TOL), msg, 'size')
        same_events(cx, x.events[p], y.events[p], msg)
        a, b = links(cx, x, p), links(cx, y, p)
        cx.check(len(a) == len(b) and cx.And(*[same_value(cx, u, w, TOL) for u, w in zip(a, b)]), msg, 'links')


def height_of(cx, k):
    return cx.real('h', 90, 140) if k in ('document', 'footnotes') else cx.real('h', 60, 120)


# ------------------------------------------------------------------ checks

def unchanged(cx, k):
    v = Val(cx)
    inputs = MAKE[k](v)
    build(cx, k, inputs, height_of(cx, k))
    where = unlike(MAKE[k](v), inputs)
    cx.check(where is None, 'the objects passed are left as they are', where)


def again(cx, k):
    """the same objects in two documents, with the same or other settings"""
    v = Val(cx)
    v.s = 9
    inputs = MAKE[k](v)
    h = height_of(cx, k)
    build(cx, k, inputs, 120 if cx.bool('other') else h, 12 if cx.bool('size') else 10)
    x = draw(cx, build(cx, k, inputs, h))
    y = draw(cx, build(cx, k, MAKE[k](v), h))
    same_pages(cx, x, y, 'a document built again is the same')


def after(cx, k, j):
    """a document built after another one"""
    v = Val(cx)
    v.s = 9
    h = height_of(cx, k)
    y = draw(cx, build(cx, k, MAKE[k](v), h))
    draw(cx, build(cx, j, MAKE[j](v), 110))
    x = draw(cx, build(cx, k, MAKE[k](v), h))
    same_pages(cx, x, y, 'a document built after another one is the same')


def shared(cx, k):
    """the same objects twice in a document, in boxes of different style"""
    v = Val(cx)
    v.m = 3
    h = height_of(cx, k)

    def doc(a, b):
        if k in ('document', 'footnotes'):
            secs = []
            for i, d in enumerate((a, b)):
                for s in d['sections']:
                    secs.append(dict(s, content=[{'content': s['content'], 'style': {'s': 7 + 2 * i}}]) if cx_wrap else s)
            return dict(a, sections=secs)
        if k == 'text':
            a, b = {'content': a}, {'content': b}
        return {'content': [dict(a, style=dict(a.get('style') or {}, s=7)), dict(b, style=dict(b.get('style') or {}, s=9))]}
    cx_wrap = cx.bool('wrap') if k in ('document', 'footnotes') else False
    one = MAKE[k](v)
    if k == 'footnotes':
        h = h + 80
    kind = k if k in ('document', 'footnotes') else 'box'
    x = draw(cx, build(cx, kind, doc(one, one), h))
    y = draw(cx, build(cx, kind, doc(MAKE[k](v), MAKE[k](v)), h))
    same_pages(cx, x, y, 'an object used twice is printed twice alike')


def often(cx, k):
    """an element that does not fit in the rest of the page, used many times"""
    el = image(1, 60, 60) if k == 'image' else {'group': ['aa', 'bb', 'cc', 'dd']}
    pdf = cx.mod('pdf').PDF(page_size=(60, 110), margin=0, font_size=10)
    pdf.add_page()
    n = cx.choice('n', [3, 60])
    size = cx.real('size', 20, 60)
    for i in range(n):
        pdf.content({'content': [{'.': 'x', 'style': {'s': 60 if i else size}}, el]})
    doc = draw(cx, pdf)
    got = sum(1 for evs in doc.events for e in evs if e.kind == 'image' or (e.kind == 'text' and e.codes == [ord('a')] * 2))
    cx.check(got == n, 'an element is printed as often as it is used')


def twice(cx):
    """a document written twice"""
    v = Val(cx)
    pdf = build(cx, 'text', make_text(v), 80)
    x = draw(cx, pdf)
    y = draw(cx, pdf)
    same_pages(cx, x, y, 'a document can be written twice')
