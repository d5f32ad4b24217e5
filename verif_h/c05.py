"""C05: page tree, sizes and orientation."""
from verif_o.pdfread import File, ReadError, Stream
from verif_o.sink import written

PROPERTY = 'C05'
BUDGET = {'quick': 120, 'thorough': 900}
BOUNDS = {'pages': 'up to 3 (quick) / 4 (thorough) pages with every combination of page arguments and changes of the defaults between them; documents of 1 to 9, 13, 37 and 50 (quick) / 1 to 50, 220 (thorough) pages with one page of a size of its own',
          'sizes': 'any real width and height in [1, 5000]'}
PATH_TIMEOUT = 100


def configs(tier):
    out = [('args', dict(n=1)), ('args', dict(n=2))]
    out += [('args3', dict(a=a, b=b, n=3 if tier == 'quick' else 4)) for a in range(4) for b in range(4)]
    ns = list(range(1, 10)) + [13, 37, 50] if tier == 'quick' else list(range(1, 51)) + [220]
    out += [('many', dict(n=n)) for n in ns]
    out += [('twice', {}), ('nopages', {})]
    return out


def tree(cx, pdf, sizes):
    """reads the page tree; sizes: the expected (width, height) of each page"""
    try:
        f = File(cx, written(pdf))
        cat = f.get(f.trailer.get('Root'))
        cx.check(isinstance(cat, dict) and cat.get('Type') == 'Catalog', 'the document has a catalog')
        leaves, seen = [], []

        def walk(ref, parent, box, depth):
            cx.check(ref not in seen, 'every node of the page tree has one parent')
            seen.append(ref)
            d = f.get(ref)
            cx.check(isinstance(d, dict), 'page tree nodes are dictionaries')
            if parent is None:
                cx.check('Parent' not in d, 'the root of the page tree has no parent')
            else:
                cx.check(d.get('Parent') == parent, 'every node names its parent')
            box = d.get('MediaBox', box)
            if d.get('Type') == 'Page':
                leaves.append((d, box))
                return 1
            cx.check(d.get('Type') == 'Pages', 'inner nodes of the page tree have type Pages')
            kids = f.get(d.get('Kids'))
            cx.check(isinstance(kids, list) and len(kids) > 0, 'inner nodes have kids')
            n = 0
            for k in kids:
                n += walk(k, ref, box, depth + 1)
            cx.check(bool(f.get(d.get('Count')) == n), 'Count is the number of pages below a node')
            return n
        walk(cat.get('Pages'), None, None, 0)
        cx.check(len(leaves) == len(sizes), 'the leaves of the page tree are the pages')
        streams = []
        for i, ((d, box), (w, h)) in enumerate(zip(leaves, sizes)):
            box = [f.get(x) for x in f.get(box)]
            cx.check(len(box) == 4 and cx.And(cx.close(box[0], 0, 0.0001), cx.close(box[1], 0, 0.0001),
                                              cx.close(box[2], w, 0.001), cx.close(box[3], h, 0.001)),
                     'a page has the media box of its size and orientation')
            cx.check(f.get(d.get('Rotate', 0)) == 0, 'a page is not rotated otherwise')
            s = f.get(d.get('Contents'))
            cx.check(isinstance(s, Stream), 'a page has contents')
            got = f.stream_data(s)
            cx.check(cx.eqcodes(got, cx.units(mark(i))), 'pages appear in the order in which they were added')
    except ReadError as ex:
        cx.fail('the file cannot be read: %s' % ex)
    return f


def mark(i):
    return b'%% page %d' % i


class Track:
    """builds a document and keeps what its pages should be"""

    def __init__(self, cx):
        self.cx = cx
        self.sizes = []
        w, h = self.size('d')
        self.w, self.h = w, h
        self.rot = cx.bool('rot')
        self.pdf = cx.mod('pdf').PDF(page_size=(w, h), rotate_page=self.rot, margin=0)

    def size(self, name):
        return self.cx.real(name + '_w', 1, 5000), self.cx.real(name + '_h', 1, 5000)

    def page(self, i, kind):
        """kind: 0 plain, 1 own size, 2 own orientation, 3 both, 4 new defaults first"""
        cx = self.cx
        kw = {}
        w, h, rot = self.w, self.h, self.rot
        if kind == 4:
            w, h = self.size('n%d' % i)
            rot = cx.choice('nrot%d' % i, [None, True, False])
            self.pdf.setup_page(page_size=(w, h), rotate_page=rot)
            self.w, self.h = w, h
            self.rot = rot = self.rot if rot is None else rot
        if kind in (1, 3):
            w, h = self.size('p%d' % i)
            kw['page_size'] = (w, h)
        if kind in (2, 3):
            rot = cx.bool('prot%d' % i)
            kw['rotate_page'] = rot
        self.pdf.add_page(**kw)
        self.pdf.page.add(mark(i))
        if rot:
            w, h = h, w
        self.sizes.append((w, h))
        p = self.pdf.page
        cx.check(cx.And(cx.close(p.width, w, 0.001), cx.close(p.height, h, 0.001)),
                 'a page under construction has its size')

    def done(self):
        tree(self.cx, self.pdf, self.sizes)


def args(cx, n):
    t = Track(cx)
    for i in range(n):
        t.page(i, cx.choice('kind%d' % i, [0, 1, 2, 3, 4]))
    t.done()


def args3(cx, a, b, n):
    t = Track(cx)
    t.page(0, a)
    t.page(1, b)
    for i in range(2, n):
        t.page(i, cx.choice('kind%d' % i, [0, 4, 2]))
    t.done()


def many(cx, n):
    t = Track(cx)
    own = cx.choice('own', [0, n - 1] if n > 9 else list(range(n)))
    for i in range(n):
        t.page(i, 1 if i == own else 0)
    t.done()


def twice(cx):
    t = Track(cx)
    t.page(0, 0)
    t.page(1, 3)
    t.done()
    t.done()
    t.page(2, cx.choice('kind', [0, 1]))
    t.done()


def nopages(cx):
    pdf = cx.mod('pdf').PDF()
    try:
        written(pdf)
    except Exception as ex:
        if type(ex).__module__.startswith('symx'):
            raise
        cx.check(True, 'refused')
        return
    cx.fail('a document without pages is refused')
