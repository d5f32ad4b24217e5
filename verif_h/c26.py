"""C26: rules for pages and running sections."""
from verif_h.tab import items_of
from verif_o.draw import draw, same_events

PROPERTY = 'C26'
BUDGET = {'quick': 200, 'thorough': 900}
BOUNDS = {'pages': 'documents of up to 3 sections and 5 (quick) / 8 (thorough) pages',
          'long': 'documents of 26 pages in three sections with four rules, one of which selects symbolic pages',
          'selections': 'up to two indexes or ranges with any start, stop and step from 0 to 9 (steps 1 to 3 when symbolic), open at either end, with or without blanks; 4 or 6 parts of which one is symbolic; 1 to 4 symbolic parts with pages up to 1000000',
          'rules': 'up to 2 rules a document that include or exclude running sections and change margin, size or rotation of the page; sizes and margins symbolic',
          'places': 'x, y, width and height of a running section by keyword, absent, or symbolic number; page margins symbolic; on three pages of which one has other margins and another size, one of each symbolic'}
PATH_TIMEOUT = 100
TOL = 0.03
FAR = {'margin_bottom': 5000}


def configs(tier):
    q = tier == 'quick'
    n = 5 if q else 8
    out = [('one', dict(n=n, form=f)) for f in ('a', 'a:b', ':b', 'a:', ':', 'a:b:c', 'a::c', ':b:c')]
    out += [('two', dict(n=3 if q else 5, one=f, two=g)) for f, g in (('a', 'a'), ('a', 'a:b'), ('a:b', 'a'), ('a:b', 'a:b:c'), ('a:', ':b'))]
    out += [('parts', dict(k=k, q=q)) for k in ((0, 3, 5) if q else range(7))]
    out += [('members', dict(forms=f)) for f in MEMBERS]
    out += [('names', dict(kind=k, deep=not q)) for k in ('sections', 'rules', 'order')]
    out += [('overrides', dict(what=w, base=b)) for w in ('margin', 'page_size', 'rotate_page', 'sides') for b in (False, True)]
    out += [('sections', dict(what=w)) for w in ('margin', 'page_size', 'rotate_page')]
    out += [('places', dict(key=k, rotate=r)) for k in ('x', 'y', 'width', 'height') for r in (False, True)]
    out += [('long', dict(form=f)) for f in (('a', 'a::c') if q else ('a', 'a:b', 'a:', ':b:c', 'a::c', 'a:b:c'))]
    out += [('changing', dict(key=k, by=b)) for k in KEYWORDS for b in ('section', 'rule')]
    out += [('apart', dict(t=t)) for t in ('text', 'box', 'table')]
    return out


FIXED = ['6', '1:3', '0::3', '9', ' 2 : 8 : 4 ', ':1', '7:']
MEMBERS = ['a', 'a:b', 'a:', ':b', 'a:b:c', 'a,a:b', 'a:b:c,a', 'a:b:c,a:b:c', 'a,a,a', ':b,a:b,a:', 'a:b,a,a:b:c,a', 'a::c,:b:c,a']


def selection(cx, form, tag, hi):
    """a selection of pages in one notation, and whether a page is in it"""
    parts = form.split(':')
    a = cx.int('a' + tag, 0, hi) if parts[0] else None
    b = cx.int('b' + tag, 0, hi) if len(parts) > 1 and parts[1] else None
    c = cx.choice('c' + tag, [1, 2, 3]) if len(parts) > 2 else None
    blank = cx.choice('blank' + tag, ['', ' '])
    text = (blank + ':' + blank).join('' if v is None else str(v) for v in ((a, b, c)[:len(parts)]))

    def has(p):
        if len(parts) == 1:
            return a == p
        start = 0 if a is None else a
        ok = [start <= p] + ([p < b] if b is not None else [])
        if c is not None:
            ok.append((p - start) % c == 0)
        return cx.And(*ok)
    return blank + text, has


def section(n, mark='w', **more):
    """a section of n pages of a word each"""
    return dict({'content': [{'.': '%s%d' % (mark, i), 'style': dict(FAR)} for i in range(n)]}, **more)


def run(cx, document):
    D = cx.mod('document').PDFDocument(document)
    D.run()
    return D


def words(cx, doc):
    """the words of every page, in drawing order"""
    out = [[] for _ in doc.pages]
    for it in items_of(cx, doc):
        out[it.page].append(it)
    return out


def running(key, **more):
    return dict({'content': [{'.': key, 'style': {'s': 8}}], 'x': 0, 'y': 0, 'width': 100, 'height': 30}, **more)


def base(**more):
    return dict({'page_size': (300, 300), 'margin': 40, 's': 10}, **more)


# ------------------------------------------------------------ selections

def one(cx, n, form):
    text, has = selection(cx, form, '', n + 1)
    D = run(cx, {'style': base(), 'running_sections': {'h': running('head')},
                 'per_page': [{'pages': text, 'running_sections': {'include': ['h']}}], 'sections': [section(n)]})
    got = words(cx, draw(cx, D))
    cx.check(len(got) == n, 'the sections fill the pages they need')
    for p in range(n):
        shown = sum(it.key == 'head' for it in got[p])
        cx.check(shown <= 1, 'a running section is printed once on a page')
        cx.check(has(p) if shown else cx.Not(has(p)), 'a running section is printed on exactly the pages selected')


def two(cx, n, one, two):
    t1, h1 = selection(cx, one, '1', n)
    t2, h2 = selection(cx, two, '2', n)
    D = run(cx, {'style': base(), 'running_sections': {'h': running('head')},
                 'per_page': [{'pages': t1 + ',' + t2, 'running_sections': {'exclude': ['h']}}],
                 'sections': [section(n, running_sections=['h'])]})
    got = words(cx, draw(cx, D))
    cx.check(len(got) == n, 'the sections fill the pages they need')
    for p in range(n):
        shown = sum(it.key == 'head' for it in got[p])
        cx.check(shown <= 1, 'a running section is printed once on a page')
        inside = cx.Or(h1(p), h2(p))
        cx.check(cx.Not(inside) if shown else inside, 'a running section is left out on exactly the pages selected')


def parts(cx, k, q):
    """a selection of many parts"""
    n = 8 if q else 11
    many = cx.choice('many', [4] if q else [4, 6])
    form = cx.choice('form', ['a', 'a:b'] if q else ['a', 'a:b', 'a:b:c'])
    text, has = selection(cx, form, '', n)
    fixed = (FIXED[k:] + FIXED)[:many - 1]
    at = cx.choice('at', [1] if q else [0, 2, many - 1])
    D = run(cx, {'style': base(), 'running_sections': {'h': running('head')},
                 'per_page': [{'pages': ','.join(fixed[:at] + [text] + fixed[at:]), 'running_sections': {'include': ['h']}}], 'sections': [section(n)]})
    got = words(cx, draw(cx, D))
    cx.check(len(got) == n, 'the sections fill the pages they need')
    always = set()
    for f in fixed:
        a, b, c = ([x.strip() for x in f.split(':')] + ['', ''])[:3]
        always |= set(range(int(a or 0), int(b or n), int(c or 1))) if ':' in f else {int(a)}
    for p in range(n):
        shown = sum(it.key == 'head' for it in got[p])
        cx.check(shown <= 1, 'a running section is printed once on a page')
        if p in always:
            cx.check(shown == 1, 'a running section is printed on exactly the pages selected')
        else:
            cx.check(has(p) if shown else cx.Not(has(p)), 'a running section is printed on exactly the pages selected')


def members(cx, forms):
    """selections among very many pages"""
    p = cx.int('p', 0, 10**6)
    sels = [selection(cx, f, str(i), 10**6) for i, f in enumerate(forms.split(','))]
    inside = p in cx.mod('utils').parse_range_string(','.join(t for t, _ in sels))
    want = cx.Or(*[h(p) for _, h in sels])
    cx.check(want if inside else cx.Not(want), 'a page is selected if one of the parts selects it')


def long(cx, form):
    """many pages and rules"""
    n = 26
    text, has = selection(cx, form, '', n)
    at = cx.choice('at', [0, 3])
    first = {'h': range(5, 26, 3), 'f': range(8, 19), 'k': [1, 2, 12, 25]}
    rules = [{'pages': '5::3', 'running_sections': {'include': ['h']}}, {'pages': '8:19', 'running_sections': {'include': ['f']}},
             {'pages': '12,1,25,2', 'running_sections': {'include': ['k']}}]
    rules.insert(at, {'pages': text, 'running_sections': {'include': ['m'], 'exclude': ['f']}})
    D = run(cx, {'style': base(), 'running_sections': {x: running(x + 'x') for x in NAMES}, 'per_page': rules,
                 'sections': [section(11, 'u'), section(1, 'v', running_sections=['f']), section(14, 'w')]})
    got = words(cx, draw(cx, D))
    cx.check(len(got) == n, 'the sections fill the pages they need')
    for p in range(n):
        shown = [it.key[0] for it in got[p] if it.key[1:] == 'x']
        cx.check([it.key for it in got[p] if it.key[1:] != 'x'] == ['u%d' % p if p < 11 else 'v0' if p == 11 else 'w%d' % (p - 12)], 'every page holds its content')
        mine = 'm' in shown
        cx.check(has(p) if mine else cx.Not(has(p)), 'a running section is printed on exactly the pages selected')
        want = {x for x in first if p in first[x]} | ({'m'} if mine else set()) | ({'f'} if p == 11 else set())
        if mine and (at == 3 or 'f' not in [x for x in first if p in first[x]]):
            want.discard('f')
        cx.check(sorted(shown) == sorted(want), 'the running sections of a page are those of its section and of the rules', (p, shown, sorted(want)))


# ------------------------------------------------------- running sections

NAMES = ['h', 'f', 'k', 'm']


def some(cx, tag, most=2):
    """a list of different names in any order"""
    out = []
    for i in range(cx.choice(tag + 'n', list(range(most + 1)))):
        out.append(cx.choice(tag + str(i), [x for x in NAMES[:3] if x not in out]))
    return out


def names(cx, kind, deep):
    secs, exp = [], []
    rules = []
    if kind == 'sections':
        lists = [some(cx, 's%d' % i) for i in range(2)]
    elif kind == 'order':
        lists = [some(cx, 's', 3)]
    else:
        lists = [cx.choice('s0', [[], ['h'], ['f', 'h']]), ['k'] if not deep else cx.choice('s1', [[], ['h'], ['k', 'f']])]
    for i, given in enumerate(lists):
        s = section(2 if kind == 'rules' and i == 0 else 1, 'w' if i == 0 else 'v')
        if given or cx.bool('given%d' % i):
            s['running_sections'] = given
        secs.append(s)
        exp += [list(given)] * len(s['content'])
    if kind != 'sections':
        for i in range(2 if kind == 'rules' else 1):
            a = cx.int('page%d' % i, 0, len(exp))
            if kind == 'order':
                inc, exc = some(cx, 'i'), cx.choice('e', [[], ['h']])
            else:
                inc = cx.choice('i%d' % i, ([[], ['h'], ['k']] if i == 0 else [[], ['h']]))
                exc = cx.choice('e%d' % i, ([[], ['h'], ['f']] if i == 0 or deep else [[], ['h']]))
            cx.assume(not set(inc) & set(exc))
            rule = {'pages': '%d:' % a if i == 0 else str(a), 'running_sections': {}}
            if inc:
                rule['running_sections']['include'] = inc
            if exc:
                rule['running_sections']['exclude'] = exc
            rules.append(rule)
            for p in range(len(exp)):
                if (a <= p) if i == 0 else (a == p):
                    exp[p] = [x for x in exp[p] if x not in exc]
                    exp[p] += [x for x in inc if x not in exp[p]]
    document = {'style': base(), 'running_sections': {x: running(x + 'x') for x in NAMES}, 'sections': secs}
    if rules:
        document['per_page'] = rules
    got = words(cx, draw(cx, run(cx, document)))
    cx.check(len(got) == len(exp), 'the sections fill the pages they need')
    for p in range(len(exp)):
        shown = [it.key[0] for it in got[p] if it.key[1:] == 'x']
        cx.check(sorted(shown) == sorted(exp[p]), 'the running sections of a page are those of its section and of the rules', (p, shown, exp[p]))
        cx.check(shown == exp[p], 'running sections are printed in the order given', (p, shown, exp[p]))


# -------------------------------------------------------------- overrides

def value(cx, what, tag, full=False):
    if what == 'margin':
        return cx.real('margin' + tag, 10, 90)
    if what == 'page_size':
        return (cx.real('width' + tag, 250, 350), cx.real('height' + tag, 200, 400))
    if what == 'rotate_page':
        return True if full else cx.bool('rotate' + tag)
    sides = [cx.real('m%d%s' % (i, tag), 10, 90) for i in range(4)]
    return {'top': sides[0], 'right': sides[1], 'bottom': sides[2], 'left': sides[3]}


def judge(cx, doc, p, page, first, args):
    """the size of a page and where its content begins"""
    w, h = args.get('page_size', (300, 320))
    if args.get('rotate_page'):
        w, h = h, w
    box = page['MediaBox']
    cx.check(cx.And(cx.close(box[2], w, TOL), cx.close(box[3], h, TOL)), 'a page has the size asked for')
    m = args['margin']
    left, top = (m['left'], m['top']) if isinstance(m, dict) else (m, m)
    cx.check(cx.close(first.l, left, TOL), 'the content of a page begins at its left margin')
    cx.check(cx.And(first.t <= h - top + 3, first.t >= h - top - 3), 'the content of a page begins at its top margin')


def overrides(cx, what, base):
    """rules change the layout of the pages they select, and of no other"""
    n = 4
    key = 'margin' if what == 'sides' else what
    style = {'page_size': (300, 320), 'margin': 40, 's': 10}
    if base and what != 'sides':
        style[key] = value(cx, what, '0')
    if not base and what in ('margin', 'sides'):
        del style['margin']
    rules, args = [], [dict({'margin': 56.693}, **style) for _ in range(n)]
    for i in range(2):
        a = cx.int('page%d' % i, 0, n)
        v = value(cx, what, str(i + 1), i == 0)
        rules.append({'pages': str(a) if i == 0 else '%d:%d' % (a, n - 1), 'style': {key: v}})
        for p in range(n):
            if (a == p) if i == 0 else cx.And(a <= p, p < n - 1):
                args[p][key] = v
    document = {'style': style, 'per_page': rules, 'sections': [section(2), section(2, 'v')]}
    D = run(cx, document)
    doc = draw(cx, D)
    cx.check(len(doc.pages) == n, 'the sections fill the pages they need')
    got = words(cx, doc)
    for p in range(n):
        cx.check([it.key for it in got[p]] == ['%s%d' % ('wv'[p // 2], p % 2)], 'every page holds its content')
        judge(cx, doc, p, doc.pages[p], got[p][0], args[p])


def sections(cx, what):
    """sections have a layout of their own"""
    n = 3
    style = {'page_size': (300, 320), 's': 10}
    args, secs = [], []
    for i in range(n):
        st = {}
        if cx.bool('own%d' % i):
            st[what] = value(cx, what, str(i), True)
        secs.append(section(1, 'wvu'[i], style=st))
        args.append(dict({'margin': 56.693}, **dict(style, **st)))
    rule = cx.int('page', 0, n)
    v = value(cx, what, 'rule')
    for p in range(n):
        if rule == p:
            args[p][what] = v
    D = run(cx, {'style': style, 'per_page': [{'pages': str(rule), 'style': {what: v}}], 'sections': secs})
    doc = draw(cx, D)
    cx.check(len(doc.pages) == n, 'the sections fill the pages they need')
    got = words(cx, doc)
    for p in range(n):
        cx.check([it.key for it in got[p]] == ['wvu'[p] + '0'], 'every page holds its content')
        judge(cx, doc, p, doc.pages[p], got[p][0], args[p])


# ----------------------------------------------------------------- places

KEYWORDS = {'x': ['left', 'right'], 'y': ['top', 'bottom'], 'width': ['left', 'right', 'full'], 'height': ['top', 'bottom', 'full']}


def places(cx, key, rotate):
    """where a running section is printed"""
    m = {s: cx.real(s, 25, 60) for s in ('left', 'top', 'right', 'bottom')}
    W, H = cx.real('W', 250, 320), 290
    v = cx.choice('value', KEYWORDS[key] + ['number', None])
    spec = {'x': 10, 'y': 12, 'width': 90, 'height': 60 if key != 'width' else 150}
    if v == 'number':
        spec[key] = cx.real('number', 20, 80)
    elif v is None:
        del spec[key]
        if cx.bool('none'):
            spec[key] = None
    else:
        spec[key] = v
    align = cx.choice('align', ['l', 'r'] if key in ('x', 'width') else ['l'])
    words_ = ['h%d' % i for i in range(8 if key in ('width', 'height') else 1)]
    if key == 'height':
        content = [{'.': x, 'style': {'s': 10, 'margin_bottom': 0}} for x in words_]
    else:
        content = [{'.': ' '.join(words_), 'style': {'s': 10}}]
    rs = dict(spec, content=content, style={'text_align': align, 'margin_bottom': 0})
    document = {'style': {'page_size': (W, H), 'margin': m, 's': 10, 'rotate_page': rotate}, 'running_sections': {'h': rs},
                'sections': [section(1, running_sections=['h'])]}
    doc = draw(cx, run(cx, document))
    pw, ph = (H, W) if rotate else (W, H)
    cx.check(len(doc.pages) == 1, 'the sections fill the pages they need')
    got = [it for it in words(cx, doc)[0] if it.key[0] == 'h']
    x = {'left': m['left'], 'right': pw - m['right'], None: 0}.get(v, None) if key == 'x' else 10
    y = {'top': m['top'], 'bottom': ph - m['bottom'], None: 0}.get(v, None) if key == 'y' else 12
    w = {'left': m['left'], 'right': m['right'], 'full': pw, None: pw - m['left'] - m['right']}.get(v) if key == 'width' else 90
    h = {'top': m['top'], 'bottom': m['bottom'], 'full': ph, None: ph - m['top'] - m['bottom']}.get(v) if key == 'height' else spec['height']
    if v == 'number':
        x, y, w, h = [spec[key] if key == k else o for k, o in (('x', x), ('y', y), ('width', w), ('height', h))]
    cx.check(len(got) > 0, 'a running section is printed')
    if key != 'height':
        cx.check([it.key for it in got] == words_, 'a running section is printed whole')
    else:
        cx.check([it.key for it in got] == words_[:len(got)], 'a running section is printed from its beginning')
        if len(got) < len(words_):
            cx.check(got[-1].b - 26 <= ph - y - h, 'a running section is cut only where it does not fit')
    cx.check(cx.And(got[0].t <= ph - y + 3, got[0].t >= ph - y - 3), 'a running section begins at its y')
    for it in got:
        cx.check(cx.And(cx.le(x, it.l, TOL), cx.le(it.r, x + w, TOL)), 'a running section lies in its width')
        cx.check(cx.le(ph - y - h, it.b, TOL), 'a running section lies in its height')
    for k in range(len(got)):
        if k == 0 or got[k].b < got[k - 1].b - 1:
            if align == 'l':
                cx.check(cx.close(got[k].l, x, TOL), 'a running section begins at its x')
        if align == 'r' and (k + 1 == len(got) or got[k + 1].b < got[k].b - 1):
            cx.check(cx.close(got[k].r, x + w, TOL), 'a running section ends at its width')
        if k and key == 'width' and got[k].b < got[k - 1].b - 1:
            line = got[k - 1].r if align == 'l' else None
            if line is not None:
                cx.check(line + (got[k].r - got[k].l) + 2.78 >= x + w - TOL, 'a running section fills its width')


def changing(cx, key, by):
    """a running section on pages of different sizes and margins"""
    m = {'left': 30, 'top': 34, 'right': 38, 'bottom': 42}
    m2 = dict(m, **{cx.choice('side', ['left', 'right'] if key in ('x', 'width') else ['top', 'bottom']): cx.real('m', 50, 70)})
    sizes = [(300, 290), (cx.real('W', 310, 350), 320), (300, 290)]
    margins = [m, m2, m]
    v = cx.choice('value', KEYWORDS[key] + [None])
    spec = {'x': 10, 'y': 12, 'width': 90, 'height': 60}
    spec[key] = v
    align = 'r' if key == 'width' else 'l'
    words_ = ['h%d' % i for i in range(40 if key == 'height' else 1)]
    rs = dict(spec, content=[{'.': x, 'style': {'s': 10, 'margin_bottom': 0}} for x in words_], style={'text_align': align, 'margin_bottom': 0})
    document = {'style': {'page_size': sizes[0], 'margin': m, 's': 10}, 'running_sections': {'h': rs}}
    other = {'page_size': sizes[1], 'margin': m2}
    if by == 'section':
        document['sections'] = [section(1, running_sections=['h']), section(1, 'v', running_sections=['h'], style=other), section(1, 'u', running_sections=['h'])]
    else:
        document['sections'] = [section(3, running_sections=['h'])]
        document['per_page'] = [{'pages': '1', 'style': other}]
    doc = draw(cx, run(cx, document))
    cx.check(len(doc.pages) == 3, 'the sections fill the pages they need')
    got = words(cx, doc)
    for p, ((pw, ph), pm) in enumerate(zip(sizes, margins)):
        own = [it for it in got[p] if it.key[0] == 'h']
        cx.check([it.key for it in own] == words_[:len(own)] and len(own) > 0, 'a running section is printed from its beginning')
        if key == 'x':
            cx.check(cx.close(own[0].l, {'left': pm['left'], 'right': pw - pm['right'], None: 0}[v], TOL), 'a running section begins at its x')
        elif key == 'y':
            y = {'top': pm['top'], 'bottom': ph - pm['bottom'], None: 0}[v]
            cx.check(cx.And(own[0].t <= ph - y + 3, own[0].t >= ph - y - 3), 'a running section begins at its y')
        elif key == 'width':
            cx.check(cx.close(own[0].r, 10 + {'left': pm['left'], 'right': pm['right'], 'full': pw, None: pw - pm['left'] - pm['right']}[v], TOL),
                     'a running section ends at its width')
        else:
            low = ph - 12 - {'top': pm['top'], 'bottom': pm['bottom'], 'full': ph, None: ph - pm['top'] - pm['bottom']}[v]
            cx.check(cx.le(low, own[-1].b, TOL), 'a running section lies in its height')
            if len(own) < len(words_):
                cx.check(own[-1].b - 14 <= low, 'a running section is cut only where it does not fit')


# ------------------------------------------------------------------ apart

def apart(cx, t):
    """running sections do not move the content"""
    h = cx.real('h', 110, 260)
    tall = cx.real('tall', 5, 40)

    def build(with_):
        if t == 'text':
            content = ['one two three four five six seven', {'.': 'eight nine ten', 'style': {'s': 13}}]
        elif t == 'box':
            content = [{'cols': {'count': 2, 'gap': 5}, 'content': ['aa bb cc dd ee', 'ff gg hh']}, 'ii jj']
        else:
            content = [{'table': [['aa bb cc', 'dd'], ['ee', 'ff gg']]}, 'ii jj']
        d = {'style': {'page_size': (110, h), 'margin': 25, 's': 10}, 'sections': [{'content': content}]}
        if with_:
            d['running_sections'] = {
                'h': {'content': [{'.': 'Zead', 'style': {'s': tall}}], 'x': 'left', 'y': 5, 'width': 'full', 'height': 'full'},
                'f': {'content': [{'table': [['Z1', 'Z2']]}], 'x': 0, 'y': 'bottom', 'width': 'full', 'height': 'full', 'style': {'border_color': 'red', 'border_width': 3}}}
            d['sections'][0]['running_sections'] = ['h', 'f']
        return draw(cx, run(cx, d))
    a, b = build(True), build(False)
    cx.check(len(a.pages) == len(b.pages), 'running sections do not change the number of pages')
    for evs, plain in zip(a.events, b.events):
        own = [e for e in evs if not mine(e)]
        cx.check(len(own) < len(evs), 'running sections are printed')
        same_events(cx, own, plain, 'running sections do not move the content')


def mine(e):
    """whether a drawing belongs to the running sections"""
    return (e.kind == 'text' and e.codes[:1] == [ord('Z')]) or (e.kind == 'line' and e.width == 3)
