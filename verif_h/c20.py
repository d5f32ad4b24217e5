"""C20: images and groups."""
from verif_o.draw import draw
from verif_h.tab import items_of, Maker, jpeg
from verif_h.box import build, place, in_order
from verif_h.c15 import new
import io

PROPERTY = 'C20'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'images': 'JPEG images of 6 pixel sizes and up to 24 (thorough: 130) on a page, symbolic widths, heights and positions, symbolic smallest heights, all placements, used once or several times',
          'areas': 'content boxes of 1 to 3 columns of symbolic width on pages of symbolic height, after texts; single images on a page',
          'groups': '7 groups of up to 4 paragraphs, images and tables, between texts, with symbolic margins above them or their elements; an image too tall for a page of symbolic height in a group, its least height given by itself, the group or the box'}
PATH_TIMEOUT = 100
TOL = 0.03

SIZES = [(20, 10), (10, 20), (300, 17), (1, 1), (7, 3), (640, 480)]

GROUPS = {
    'texts': [2, [1, 2], 1, [2, 1], 3],
    'first': [[1, 3], 2, [1, 1, 1]],
    'image': [2, [1, 'I9', 1], 1, 2],
    'least': [1, [('I14', {'min_height': 8}), 2], 2],
    'two': [[('I14', {'min_height': 7}), ('I9', {'min_height': 5}), 1], 1, 2],
    'table': [2, [1, 'T2'], 1],
    'margin': [2, ([1, (2, {'margin_top': 3})], {'margin_top': 4, 'margin_bottom': 6}), 1, ([1, 1], {'margin_bottom': 0})],
}


def configs(tier):
    q = tier == 'quick'
    out = [('single', dict(how=h)) for h in ('width', 'height', 'both', 'none')]
    out += [('shared', {}), ('many', dict(n=24 if q else 130))]
    for place in ('flow', 'normal'):
        for cols in ((1, 2) if q else (1, 2, 3)):
            out.append(('fitted', dict(place=place, cols=cols, least=False)))
            for least in ((True,) if cols == 1 or not q else (4, 30)):
                out.append(('fitted', dict(place=place, cols=cols, least=least)))
    for g in GROUPS:
        for cols in ((1, 2) if q else (1, 2, 3)):
            out.append(('groups', dict(g=g, cols=cols)))
    out += [('moved', dict(kind=k)) for k in ('text', 'image', 'table')]
    out += [('grown', dict(where=w)) for w in ('own', 'group', 'box')]
    out.append(('cells', {}))
    return out


def ratio(cx, it, size):
    w, h = size
    cx.check(cx.le((it.r - it.l) * h - (it.t - it.b) * w, 0, 0.02 * max(w, h)), 'an image keeps its proportions')
    cx.check(cx.le((it.t - it.b) * w - (it.r - it.l) * h, 0, 0.02 * max(w, h)), 'an image keeps its proportions')


def single(cx, how):
    """PDF.image"""
    pdf = new(cx, 300, 400, cx.choice('margin', [0, 20]))
    size = cx.choice('size', SIZES)
    k = {}
    if how in ('width', 'both'):
        k['width'] = cx.real('width', 1, 200)
    if how in ('height', 'both'):
        k['height'] = cx.real('height', 1, 200)
    x, y = pdf.page.margin_left, pdf.page.margin_top
    if cx.bool('placed'):
        x, y = cx.real('x', 0, 100), 50
        k['x'] = x
        pdf.page.y = y
    pdf.image(io.BytesIO(jpeg(*size)), 'jpg', 'a', **k)
    its = items_of(cx, draw(cx, pdf))
    cx.check(len(its) == 1, 'an image is drawn once')
    it = its[0]
    if how != 'both':
        ratio(cx, it, size)
    cx.check(cx.close(it.l, x, TOL), 'an image is drawn at its position')
    if 'width' in k:
        cx.check(cx.close(it.r - it.l, k['width'], TOL), 'an image has the width given')
    if 'height' in k:
        cx.check(cx.close(it.t - it.b, k['height'], TOL), 'an image has the height given')
    if how == 'none':
        cx.check(cx.close(it.r - it.l, pdf.page.content_width, TOL), 'an image is as wide as the contents of the page')


def shared(cx):
    """one image on several pages, several images on a page"""
    pdf = new(cx, 300, 400)
    n = cx.choice('pages', [1, 2, 3])
    want = []
    for p in range(n):
        if p:
            pdf.add_page()
        for i, size in enumerate(SIZES[:3]):
            if cx.bool('p%di%d' % (p, i)):
                pdf.image(io.BytesIO(jpeg(*size)), 'jpg', 'image%d' % i, width=20)
                want.append((p, 'I:%dx%d' % size))
    doc = draw(cx, pdf)
    cx.check([(i.page, i.key) for i in items_of(cx, doc)] == want, 'every image is drawn on its page')


def many(cx, n):
    """many images, on pages of their own and shared"""
    pdf = new(cx, 300, 400)
    want = []
    sizes = [(3 + i % 7 * 5, 300 - i * 2 if i % 3 else 4 + i) for i in range(n)]
    cut = cx.choice('cut', [n, n // 2, 10])
    again = cx.int('again', 0, n - 1)
    w = cx.real('w', 5, 60)
    for i, size in enumerate(sizes):
        if i == cut:
            pdf.add_page()
        pdf.image(io.BytesIO(jpeg(*size)), 'jpg', 'image%d' % i, width=w)
        want.append((int(i >= cut), 'I:%dx%d' % size))
    for i in (0, 1, n // 2, n - 1):
        if i >= again:
            pdf.image(io.BytesIO(jpeg(*sizes[i])), 'jpg', 'image%d' % i, width=w)
            want.append((int(n > cut), 'I:%dx%d' % sizes[i]))
    its = items_of(cx, draw(cx, pdf))
    cx.check([(i.page, i.key) for i in its] == want, 'every image is drawn on its page')
    for it in its:
        cx.check(cx.close(it.r - it.l, w, TOL), 'an image has the width given')


def fitted(cx, place, cols, least):
    """an image in a content box after a text: at its size where it fits,
    otherwise shrunk as far as allowed or moved"""
    size = cx.choice('size', [(20, 10), (40, 33)])
    h = cx.real('h', 60, 130)
    w = 55 * cols
    n = cx.choice('words', [1, 4, 8])
    st = {'image_place': place}
    if least:
        st['min_height'] = cx.real('least', 1, 50) if least is True else least
        st['shrink'] = cx.choice('shrink', [0, 1])
    mk = Maker(cx)
    words = mk.words(n)
    key = 'I:%dx%d' % size
    pdf = new(cx, w, h)
    pdf.content({'content': [' '.join(words), {'image': io.BytesIO(jpeg(*size)), 'extension': 'jpg', 'image_name': 'a', 'style': st}],
                 'cols': {'count': cols, 'gap': 5}})
    doc = draw(cx, pdf)
    its = items_of(cx, doc)
    cx.check([i.key for i in its] == words + [key], 'texts and images are drawn once')
    im = its[-1]
    ratio(cx, im, size)
    cw = (w - 5 * (cols - 1)) / cols
    col = [c for c in range(cols) if bool(cx.And(cx.le(c * (cw + 5), im.l, TOL), cx.le(im.r, c * (cw + 5) + cw, TOL)))]
    cx.check(len(col) == 1 and bool(cx.And(cx.le(0, im.b, TOL), cx.le(im.t, h, TOL))), 'an image lies in the area of a column')
    col = col[0]
    c = col * (cw + 5) + cw / 2
    cx.check(cx.close((im.l + im.r) / 2, c, TOL), 'an image is in the middle of its column')
    natural = cw * size[1] / size[0]
    high = im.t - im.b
    cx.check(cx.le(high, natural, TOL), 'an image is not enlarged')
    small = bool(high < natural - 0.1)
    prev = its[-2]
    if small:
        cx.check(least, 'an image is shrunk only if allowed')
        cx.check(cx.le(st['min_height'], high, TOL), 'an image is not smaller than allowed')
    if cols == 1:
        room = prev.b - 5 if prev.page == im.page else h
        if small:
            cx.check(cx.le(room, natural, TOL), 'an image that fits is not shrunk')
            cx.check(cx.close(high, st['min_height'] if st['shrink'] else room, TOL), 'an image is shrunk as asked')
        cx.check(cx.close(im.t, room, TOL), 'an image follows what comes before it')
        if prev.page != im.page:
            # it did not fit
            below = prev.b - 5
            cx.check(natural >= below - TOL, 'an image that fits is not moved')
            if least:
                cx.check(st['min_height'] >= below - TOL, 'an image that fits when shrunk is not moved')


def groups(cx, g, cols):
    mk = Maker(cx)
    d, leaves = build(mk, (cols, 6, GROUPS[g]))
    # a group has to fit with its images shrunk from the last one on
    h = cx.real('h', 80 if g == 'two' else 72, 130)
    w = 56 * cols - 6
    pdf = new(cx, w, h)
    pdf.content(d)
    doc = draw(cx, pdf)
    place(cx, items_of(cx, doc), leaves, 0, w)
    in_order(cx, leaves)
    for i, a in enumerate(leaves):
        cx.check(cx.And(cx.le(0, a.it.b, TOL), cx.le(a.it.t, h, TOL)), 'everything lies on the page', a.key)
        if a.kind == 'image':
            pw, ph = a.key[2:].split('x')
            ratio(cx, a.it, (int(pw), int(ph)))
            natural = 50 * int(ph) / int(pw)
            high = a.it.t - a.it.b
            cx.check(cx.le(high, natural, TOL), 'an image is not enlarged')
            cx.check(cx.le(min(natural, a.style.get('min_height', natural)), high, TOL), 'an image is not smaller than allowed')
        for b in leaves[i + 1:]:
            if a.group is not None and a.group is b.group:
                cx.check(a.it.page == b.it.page and a.cols == b.cols, 'a group stays together', (a.key, b.key))
            if a.owner is not b.owner and a.it.page == b.it.page and a.cols == b.cols:
                hi, lo = (a, b) if bool(a.it.b > b.it.b) else (b, a)
                cx.check(lo.it.t <= hi.it.b + TOL, 'elements do not overlap', (a.key, b.key))


def moved(cx, kind):
    """a group is moved only if it does not fit"""
    mt = cx.real('top', 0, 36)
    n = cx.choice('words', [1, 5])
    group = {'text': [1, 2], 'image': ['I9', 1], 'table': [2, 'T2']}[kind]
    inner = cx.bool('inner')
    els = [n, (group, {'margin_top': mt, 'margin_bottom': 3}), 1]
    if inner:
        els[1] = ([(group[0], {'margin_bottom': 8})] + [(group[1], {'margin_top': mt})], {'margin_bottom': 0})
    d, leaves = build(Maker(cx), (1, None, els))
    h = cx.choice('h', [100, 116, 131])
    pdf = new(cx, 60, h)
    pdf.content(d)
    doc = draw(cx, pdf)
    place(cx, items_of(cx, doc), leaves, 0, 60)
    in_order(cx, leaves)
    prev = leaves[n - 1].it
    its = [lf.it for lf in leaves if lf.group is not None]
    cx.check(all(i.page == its[0].page for i in its), 'a group stays together')
    low = its[-1].b - (2.25 if kind == 'table' else 0)
    if its[0].page == prev.page:
        cx.check(cx.le(0, low, TOL), 'everything lies on the page')
        if not inner:
            cx.check(cx.close(prev.b - 5 - mt, its[0].t, 3), 'a group follows what comes before it')
    else:
        need = h - low
        room = prev.b - 5 - (0 if inner else mt)
        cx.check(need >= room - TOL, 'a group that fits is not moved', (need, room))


def grown(cx, where):
    """the image of a group takes the room that is left"""
    h = cx.real('h', 70, 120)
    least = cx.choice('least', [2, 7.5])
    least = {'min_height': least}
    before, after = cx.choice('words', [(1, 1), (2, 1), (1, 2)])
    shrink = cx.bool('shrink')
    if shrink:
        least['shrink'] = 1
    mk = Maker(cx)
    b, a = mk.words(before), mk.words(after)
    pdf = new(cx, 50, h)
    im = {'image': io.BytesIO(jpeg(10, 30)), 'extension': 'jpg', 'image_name': 'a'}
    group = {'group': [' '.join(b), im, ' '.join(a)]}
    box = {'content': [group]}
    {'own': im, 'group': group, 'box': box}[where]['style'] = least
    pdf.content(box)
    doc = draw(cx, pdf)
    its = items_of(cx, doc)
    key = 'I:10x30'
    cx.check([i.key for i in its] == b + [key] + a, 'texts and images are drawn once')
    cx.check(all(i.page == 0 for i in its), 'a group stays together')
    i = its[before]
    ratio(cx, i, (10, 30))
    low = its[-1].b
    cx.check(cx.And(cx.le(0, low, TOL), cx.le(its[0].t, h, TOL)), 'everything lies on the page')
    if shrink and where != 'own':
        cx.check(cx.close(i.t - i.b, least['min_height'], TOL), 'an image is shrunk as asked')
    elif not shrink:
        cx.check(cx.le(low, 0, 4), 'an image is shrunk only to fit')


def cells(cx):
    """images in the cells of a table"""
    size = cx.choice('size', [(20, 10), (10, 12)])
    # an image has to fit on a page
    h = cx.real('h', 125, 180)
    w = cx.real('w', 60, 100)
    mk = Maker(cx)
    words = mk.words(cx.choice('words', [1, 5]))
    pdf = new(cx, w, h)
    pdf.table([[' '.join(words)], [{'image': io.BytesIO(jpeg(*size)), 'extension': 'jpg', 'image_name': 'a'}]], style={'cell_margin': 3})
    its = items_of(cx, draw(cx, pdf))
    cx.check([i.key for i in its] == words + ['I:%dx%d' % size], 'texts and images are drawn once')
    im = its[-1]
    ratio(cx, im, size)
    cx.check(cx.And(cx.le(3, im.l, TOL), cx.le(im.r, w - 3, TOL), cx.le(3, im.b, TOL), cx.le(im.t, h - 3, TOL)), 'an image lies in its cell')
