"""Content boxes made of words that occur only once."""
from verif_h.tab import Maker

TOL = 0.03


class Leaf:
    """a word or image of a box; boxes: the boxes it is in, from the outermost
    one; owner: the element it is part of; group: the group it is part of, or
    the image that may be overtaken by what follows"""
    __slots__ = ('key', 'boxes', 'owner', 'group', 'it', 'cols', 'kind', 'style', 'region')

    def __init__(self, key, boxes, owner, group, kind, style):
        self.key, self.boxes, self.owner, self.group, self.kind, self.style = key, boxes, owner, group, kind, style


class Box:
    def __init__(self, cols, gap):
        self.cols, self.gap = cols, gap

    def region(self, x, w, col):
        gap = self.gap
        if gap is None:
            gap = w / 25
            if gap < 7:
                gap = 7
        cw = (w - gap * (self.cols - 1)) / self.cols
        return x + col * (cw + gap), cw


def build(mk, spec, boxes=None, leaves=None, inherited=None):
    """spec: (cols, gap, [elements]) with elements n (a paragraph of n words),
    'N' (a number), 'I' (an image), 'In' (an image n pixels high, in its
    place), 'Tn' (a table of n rows of a word), a list (a group) or a box;
    (element, style) for an element with a style"""
    cols, gap, elements = spec
    boxes = (boxes or []) + [Box(cols, gap)]
    if leaves is None:
        leaves = []
    style = inherited or {'margin_bottom': 5}
    out = []
    for el in elements:
        out.append(element(mk, el, boxes, leaves, style))
    d = {'content': out}
    if cols > 1 or gap is not None:
        d['cols'] = {'count': cols}
        if gap is not None:
            d['cols']['gap'] = gap
    return d, leaves


def element(mk, el, boxes, leaves, inherited, group=None):
    style = None
    if isinstance(el, tuple) and len(el) == 2:
        el, style = el
    owner = object()
    full = dict(inherited, **(style or {}))

    def leaf(key, kind):
        leaves.append(Leaf(key, boxes, owner, group, kind, full))

    if isinstance(el, tuple):
        d, _ = build(mk, el, boxes, leaves, full)
    elif isinstance(el, list):
        d = {'group': [element(mk, e, boxes, leaves, full, owner) for e in el]}
    elif isinstance(el, int):
        ws = mk.words(el)
        for w in ws:
            leaf(w, 'text')
        d = {'.': ' '.join(ws)}
    elif el == 'N':
        mk.pictures += 1
        leaf('%d' % (900 + mk.pictures), 'text')
        return 900 + mk.pictures
    elif el[0] == 'I':
        if len(el) > 1:
            d, key = mk.image(20, int(el[1:]))
            d['style'] = {'image_place': 'normal'}
            leaf(key, 'image')
        else:
            d, key = mk.image()
            group = group or owner
            leaf(key, 'image')
    elif el[0] == 'T':
        ws = mk.words(int(el[1:]))
        for w in ws:
            leaf(w, 'table')
        d = {'table': [[w] for w in ws], 'style': {'cell_margin': 2}}
    if style is not None:
        d.setdefault('style', {}).update(style)
    return d


def place(cx, items, leaves, x, w):
    """where the leaves are drawn: every one once, and in which columns"""
    got = {}
    for it in items:
        got.setdefault(it.key, []).append(it)
    known = {lf.key for lf in leaves}
    cx.check(all(k in known for k in got), 'nothing is drawn that was not given', [k for k in got if k not in known])
    cx.check(all(len(v) == 1 for v in got.values()), 'nothing is drawn twice', [k for k in got if len(got[k]) > 1])
    cx.check(all(k in got for k in known), 'nothing is lost', [k for k in known if k not in got])
    for lf in leaves:
        lf.it = got[lf.key][0]
        lf.cols = []
        rx, rw = x, w
        for b in lf.boxes:
            col = None
            for c in range(b.cols):
                cx_, cw = b.region(rx, rw, c)
                if bool(cx.And(cx.le(cx_, lf.it.l, TOL), cx.le(lf.it.r, cx_ + cw, TOL))):
                    col = c
                    rx, rw = cx_, cw
                    break
            cx.check(col is not None, 'elements lie inside the columns', lf.key)
            lf.cols.append(col)
        lf.region = (rx, rw)


def in_order(cx, leaves):
    for i, a in enumerate(leaves):
        for b in leaves[i + 1:]:
            if a.group is not b.group:
                # what does not fit may be overtaken
                continue
            before(cx, a, b)


def before(cx, a, b):
    msg = 'elements are printed in order'
    if a.it.page != b.it.page:
        cx.check(a.it.page < b.it.page, msg, (a.key, b.key))
        return
    for x, y, p, q in zip(a.boxes, b.boxes, a.cols, b.cols):
        if x is not y:
            break
        if p != q:
            cx.check(p < q, msg, (a.key, b.key))
            return
    if a.owner is b.owner and a.kind == 'text':
        cx.check(cx.Or(b.it.t <= a.it.b + 0.5, cx.And(cx.close(a.it.b, b.it.b, 0.02), b.it.l >= a.it.r - 0.02)), msg, (a.key, b.key))
    else:
        cx.check(b.it.t <= a.it.b + TOL, msg, (a.key, b.key))
