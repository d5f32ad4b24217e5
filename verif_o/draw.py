"""What a finished document draws, page by page."""
from verif_o.content import events_of_page, pages_of
from verif_o.pdfread import File, ReadError
from verif_o.sink import written


class Doc:
    def __init__(self, cx, pdf):
        self.cx = cx
        self.file = File(cx, written(pdf))
        self.pages = pages_of(self.file)
        self.events = [events_of_page(cx, self.file, p) for p in self.pages]


def draw(cx, pdf):
    try:
        return Doc(cx, pdf)
    except ReadError as ex:
        cx.fail('the written document cannot be read: %s' % ex)


def same_value(cx, a, b, tol):
    if a is None or b is None or isinstance(a, (str, bool)):
        return a == b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and cx.And(*[same_value(cx, x, y, tol) for x, y in zip(a, b)])
    return cx.close(a, b, tol)


def same_event(cx, a, b, tol=0.01):
    if a.kind != b.kind:
        return False
    if a.kind == 'text':
        ok = [len(a.codes) == len(b.codes) and cx.eqcodes(a.codes, b.codes), a.font.base == b.font.base]
        keys = ('x', 'y', 'size', 'rise', 'color', 'adv')
    elif a.kind == 'fill':
        ok, keys = [], ('x', 'y', 'w', 'h', 'color')
    elif a.kind == 'line':
        ok, keys = [], ('x1', 'y1', 'x2', 'y2', 'width', 'color', 'cap', 'dash')
    else:
        ok, keys = [], ('m',)
    return cx.And(*(ok + [same_value(cx, getattr(a, k), getattr(b, k), tol) for k in keys]))


def same_events(cx, a, b, msg, tol=0.01):
    cx.check(len(a) == len(b), msg, 'different number of drawings')
    for x, y in zip(a, b):
        cx.check(same_event(cx, x, y, tol), msg)
