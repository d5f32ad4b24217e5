"""C27: footnotes."""
from verif_h.tab import Maker, items_of, jpeg
from verif_o.draw import draw

PROPERTY = 'C27'
BUDGET = {'quick': 200, 'thorough': 900}
BOUNDS = {'documents': 'up to 2 sections of up to 6 elements (paragraphs, columns, tables, groups, lists) with up to 12 footnotes of up to 12 words given as text, number, list or dict; up to 4 footnotes of which any have equal texts',
          'long': '3 sections of 12 paragraphs with about 11 footnotes each, over many pages; the height of the page, or the length of one footnote, symbolic',
          'sizes': 'symbolic page height, page width or footnote font size, one or two at a time',
          'excluded': 'footnotes of one page of text taller than the page (refused with an exception)'}
PATH_TIMEOUT = 100
TOL = 0.03

# a paragraph: (words, {after which word: footnote}); a footnote is a number
# of words (text), or a kind and that number
SPECS = {
    'one': [(14, {5: 2})],
    'paras': [(5, {1: 1}), (7, {6: 5}), (4, {}), (6, {0: 3})],
    'every': [(3, {2: 2}), (3, {2: 1}), (3, {2: 3}), (3, {2: 1})],
    'dense': [(9, {0: 1, 1: 1, 4: 2, 8: 1}), (3, {})],
    'kinds': [(6, {0: ('list', 2), 2: ('dict', 3), 5: ('format', 2)}), (5, {1: ('number', 1), 4: ('style', 2)})],
    'columns': [('cols', [(6, {1: 1}), (7, {3: 2}), (3, {2: 1})]), (4, {1: 2})],
    'table': [(2, {0: 1}), ('table', [[(3, {1: 1}), (2, {0: 2})], [(1, {}), (5, {4: 1})]]), (3, {2: 1})],
    'group': [(5, {2: 1}), ('group', [(2, {1: 2}), 'I']), (5, {3: 1})],
    'overtake': [(3, {}), ('group', [(8, {1: 1}), (6, {})]), (4, {1: 7})],
    'late': [(4, {0: 1}), 'I', ('group', [(3, {0: 2}), (3, {2: 1}), 'I']), (6, {1: 4, 4: 1}), (3, {0: 1})],
    'list': [('list', (5, {1: 2})), ('list', (6, {0: 1, 5: 2})), (2, {})],
    'nested': [('box', [(4, {1: 1}), ('cols', [(5, {2: 1}), (4, {0: 2})])]), ('box', [(5, {4: 1})])],
    'image': [(3, {1: 1}), 'I', (8, {2: 1, 6: 2}), (3, {0: 1})],
    'none': [(6, {}), (5, {})],
}
# the least height of a page for the footnotes of a page of text
LEAST = {'overtake': 112, 'late': 170}
MANY = [(24, {i: 1 for i in range(0, 24, 2)})]


def configs(tier):
    q = tier == 'quick'
    out = []
    for t in SPECS:
        out.append(('height', dict(t=t)))
        out.append(('width', dict(t=t)))
        if not q:
            out.append(('both', dict(t=t)))
    out += [('size', dict(t=t)) for t in (('dense', 'paras') if q else SPECS)]
    out += [('sections', dict(t=t, u=u)) for t, u in ((('every', 'dense'), ('paras', 'none')) if q else
                                                       [(a, b) for a in ('every', 'columns', 'table') for b in ('dense', 'paras', 'group')])]
    out += [('long', {}), ('many', {}), ('formats', {})]
    out += [('equal', dict(kind=k)) for k in ('text', 'number', 'dict', 'same', 'list')]
    return out


class Doc:
    def __init__(self, cx):
        self.mk = Maker(cx)
        self.body = []      # the words of the text
        self.refs = []      # (word before the reference, words of its footnote)

    def note(self, kind):
        kind, n = kind if isinstance(kind, tuple) else ('text', kind)
        k = len(self.refs)
        ws = ['Z%d.%d' % (k, i) for i in range(n)]
        text = ' '.join(ws)
        value = {'text': text, 'list': [ws[0], {'.b': ' ' + ' '.join(ws[1:])}], 'dict': {'.': text, 'style': {'i': True}},
                 'format': {'.': text, 'style': 'strong'}, 'style': {'.b;s:8': text}}.get(kind)
        if kind == 'number':
            ws = ['%d' % (7000 + k)]
            value = 7000 + k
        return ws, value

    def para(self, spec):
        n, notes = spec
        ws = self.mk.words(n)
        out, run = [], []
        for i, w in enumerate(ws):
            run.append(w)
            self.body.append(w)
            if i in notes:
                words, value = self.note(notes[i])
                self.refs.append((w, words))
                out += [' '.join(run), {'footnote': value}]
                run = ['']
        if run != [''] and run:
            out.append(' '.join(run))
        return {'.': out}

    def element(self, el):
        if el == 'I':
            d, key = self.mk.image(20, 10)
            self.body.append(key)
            return d
        if isinstance(el[0], int):
            return self.para(el)
        kind, inner = el
        if kind == 'list':
            d = self.para(inner)
            d['style'] = {'list_text': '- ', 'list_indent': 8}
            return d
        if kind == 'cols':
            return {'cols': {'count': 2, 'gap': 6}, 'content': [self.element(e) for e in inner]}
        if kind == 'box':
            return {'content': [self.element(e) for e in inner]}
        if kind == 'group':
            return {'group': [self.element(e) for e in inner]}
        return {'table': [[self.para(c) for c in row] for row in inner], 'style': {'cell_margin': 2}}


def verify(cx, doc, d, per_section, bottom):
    """per_section: number of footnotes of each section; bottom: of the text area"""
    items = items_of(cx, doc)
    notes = {w: k for k, (_, ws) in enumerate(d.refs) for w in ws}
    where, at = {}, {}
    numbers = [[] for _ in doc.pages]
    for i, it in enumerate(items):
        if it.key in notes or it.key in d.body:
            cx.check(it.key not in where, 'nothing is printed twice', it.key)
            where[it.key] = it
            at[it.key] = i
        elif it.key == '-':
            pass
        else:
            cx.check(it.key.isdigit(), 'nothing is printed that was not given', it.key)
            numbers[it.page].append((i, it))
    for w in list(notes) + d.body:
        cx.check(w in where, 'nothing is lost', w)
    for w in [w for w in d.body if w[0] != 'I']:
        pass
    used = set()
    count = [0] * len(doc.pages)
    refs = [[] for _ in doc.pages]
    # the references, in the order of the text
    for k, (host, ws) in enumerate(d.refs):
        h = where[host]
        p = h.page
        cx.check(where[ws[0]].page == p, 'a footnote is printed on the page of its reference', (host, ws[0]))
        cx.check(all(where[w].page == p for w in ws), 'a footnote is printed on one page')
        count[p] += 1
        mine = [(i, it) for i, it in numbers[p] if it.key == '%d' % count[p]]
        cx.check(len(mine) == 2, 'a reference and its footnote bear the number of the reference on its page', (host, count[p], [x.key for _, x in numbers[p]]))
        (i, ref), (j, mark) = mine
        used.update((i, j))
        cx.check(cx.And(cx.close(ref.l, h.r, TOL), cx.close(ref.b, h.b, TOL)), 'a reference follows its word')
        cx.check(ref.ev.rise > 0, 'a reference is raised')
        first = where[ws[0]]
        cx.check(cx.And(cx.close(mark.b, first.b, TOL), cx.le(mark.r, first.l, TOL)), 'the number stands before its footnote')
        refs[p].append((k, ws, mark))
    for p in range(len(doc.pages)):
        cx.check(all(i in used for i, _ in numbers[p]), 'there are no numbers without a reference')
        last = None
        for k, ws, mark in refs[p]:
            seq = [where[w] for w in ws]
            for it in ([last] if last else []) + seq:
                pass
            if last is not None:
                cx.check(seq[0].b < last.b - 1, 'footnotes are printed in the order of their references')
            for a, b in zip(seq, seq[1:]):
                cx.check(cx.Or(b.b < a.b - 1, cx.And(cx.close(a.b, b.b, TOL), a.r <= b.l + TOL)), 'the words of a footnote are printed in order')
            last = seq[-1]
        # the areas of the page
        rules = [e for e in doc.events[p] if e.kind == 'line' and not cx.issym(e.x2 - e.x1) and e.x2 - e.x1 == 150]
        cx.check(len(rules) == (1 if refs[p] else 0), 'a rule separates the footnotes of a page')
        mine = [where[w] for _, ws, _ in refs[p] for w in ws]
        if rules:
            y = rules[0].y1
            for it in items:
                if it.page == p and it.key in at and it.key not in notes:
                    cx.check(cx.le(y, it.b, TOL), 'the text does not run into the footnotes')
            for e in doc.events[p]:
                if e.kind == 'line' and e is not rules[0]:
                    cx.check(cx.And(cx.le(y, e.y1, TOL), cx.le(y, e.y2, TOL)), 'borders do not run into the footnotes')
            for it in mine:
                cx.check(cx.And(cx.le(it.t, y, TOL), cx.le(bottom, it.b, TOL)), 'footnotes stand between the rule and the bottom margin')
        for it in items:
            if it.page == p:
                cx.check(cx.le(bottom, it.b, TOL), 'nothing is printed below the bottom margin')
    return where


def document(cx, specs, w, h, margin=10, formats=None, **style):
    d = Doc(cx)
    secs = []
    for s in specs:
        secs.append({'content': [d.element(e) for e in s]})
    out = {'style': dict({'page_size': (w, h), 'margin': margin, 's': 10}, **style), 'sections': secs, 'formats': dict({'strong': {'b': True}}, **(formats or {}))}
    return d, out


def run(cx, specs, w, h, margin=10, formats=None, **style):
    d, out = document(cx, specs, w, h, margin, formats, **style)
    D = cx.mod('document').PDFDocument(out)
    D.run()
    doc = draw(cx, D)
    where = verify(cx, doc, d, None, margin)
    return d, doc, where


def height(cx, t):
    run(cx, [SPECS[t]], 110, cx.real('h', LEAST.get(t, 130), LEAST.get(t, 130) + 110))


def width(cx, t):
    run(cx, [SPECS[t]], cx.real('w', 90, 200), cx.choice('h', [LEAST.get(t, 130) + 30, LEAST.get(t, 130) + 60]))


def both(cx, t):
    run(cx, [SPECS[t]], cx.real('w', 90, 200), cx.real('h', LEAST.get(t, 130) + 20, LEAST.get(t, 130) + 90))


def size(cx, t):
    run(cx, [SPECS[t]], 120, 170, formats={'$footnotes': {'s': cx.real('size', 4, 15)}})


def sections(cx, t, u):
    d, doc, where = run(cx, [SPECS[t], SPECS[u]], 110, cx.real('h', 135, 200))


def many(cx):
    """more than nine footnotes on a page"""
    run(cx, [MANY], 110, cx.real('h', 300, 480))


def long(cx):
    """many pages"""
    secs = []
    for s in range(3):
        secs.append([(8 + (5 * i + s) % 9, {3 * j: 1 + (i + j + s) % 3 for j in range((2 if i % 4 == 0 else (i + s) % 2))}) for i in range(12)])
    if cx.bool('height'):
        h = cx.real('h', 225, 240)
    else:
        h = 300
        secs[1][5] = (9, {0: 1, 4: cx.choice('words', [1, 4, 8, 12]), 8: 2})
    run(cx, secs, 130, h)


def formats(cx):
    """references in a style of their own"""
    d, doc, where = run(cx, [SPECS['dense']], 120, 150, formats={'$footnote': {'r': cx.real('rise', 0.1, 0.8), 's': cx.real('size', 3, 9), 'c': 'red'}})


def equal(cx, kind):
    """footnotes with equal texts are footnotes of their own"""
    one = {'.': 'Ze', 'style': {'i': True}}
    value = {'text': lambda: 'Ze', 'number': lambda: 7, 'list': lambda: ['Ze'], 'dict': lambda: {'.': 'Ze'}, 'same': lambda: one}[kind]
    eq = 'Ze' if kind != 'number' else '7'
    n = cx.choice('n', [2, 3, 4])
    pattern = [cx.bool('e%d' % i) for i in range(n)]
    content, body, want = [], [], []
    for i in range(n):
        body.append('w%d' % i)
        want.append(eq if pattern[i] else 'Z%d' % i)
        content.append({'.': ['w%d' % i, {'footnote': value() if pattern[i] else 'Z%d' % i}]})
    h = cx.real('h', 115, 240)
    D = cx.mod('document').PDFDocument({'style': {'page_size': (110, h), 'margin': 10, 's': 10}, 'sections': [{'content': content}]})
    D.run()
    doc = draw(cx, D)
    at = 0
    for p, evs in enumerate(doc.events):
        its = [it for it in items_of(cx, doc) if it.page == p]
        rules = [e for e in evs if e.kind == 'line']
        cx.check(len(rules) == 1, 'a rule separates the footnotes of a page')
        y = rules[0].y1
        above = [it for it in its if bool(it.b >= y)]
        below = [it for it in its if not bool(it.b >= y)]
        hosts = [it.key for it in above if it.key[0] == 'w']
        k = len(hosts)
        cx.check(hosts == body[at:at + k], 'nothing is lost', hosts)
        cx.check([it.key for it in above if it.key[0] != 'w'] == ['%d' % (i + 1) for i in range(k)], 'references are numbered from 1 on each page')
        flat = []
        for i in range(k):
            flat += ['%d' % (i + 1), want[at + i]]
        got = [it.key for it in below]
        cx.check(got == flat, 'every reference has its footnote on its page', (got, flat))
        for a, b in zip(below, below[2:]):
            cx.check(b.b < a.b - 1, 'footnotes are printed in the order of their references')
        at += k
    cx.check(at == n, 'nothing is lost')
