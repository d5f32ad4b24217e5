"""C32: styles of documents, boxes, tables and groups apply to what is inside."""
from verif_o.draw import draw, same_events

PROPERTY = 'C32'
BUDGET = {'quick': 250, 'thorough': 900}
BOUNDS = {'nestings': '10 (quick) / 16 (thorough) nestings of content boxes, columns, tables, cells, groups, paragraphs and fragments up to 5 deep, each followed by siblings, printed by PDF.content, PDF.table, as section of a document or as running section',
          'attributes': 'sizes, grays, rises, line heights, indents and list indents symbolic (with columns one at a time); families, bold, italic, underline, background, alignment and list markers; given or not at every level as a dictionary, by name or as a compact key',
          'printed': 'a paragraph of any of these settings in a box, cell, group or section against the same printed by PDF.text',
          'defaults': 'font, size, color, alignment, line height and indent of PDF and PDFDocument against the same given to every element, for texts, tables, boxes, running sections and footnotes'}
ASSUMPTIONS = ['margins of containers are no part of this property (C19)']
PATH_TIMEOUT = 60

# a nesting: kinds from the outside in
SHAPES = {
    'box': ['box', 'para', 'frag'],
    'boxes': ['box', 'box', 'para'],
    'cols': ['box', 'cols', 'box', 'para'],
    'table': ['table', 'para', 'frag'],
    'cells': ['box', 'table', 'para'],
    'cellbox': ['table', 'box', 'para'],
    'tables': ['table', 'table', 'para'],
    'group': ['box', 'group', 'para'],
    'grouptable': ['box', 'group', 'table', 'para'],
    'celltable': ['table', 'box', 'table', 'para'],
    'plain': ['para', 'frag', 'frag'],
    'boxcells': ['box', 'box', 'table', 'box', 'para'],
    'colgroup': ['cols', 'group', 'para', 'frag'],
    'cellgroup': ['table', 'box', 'group', 'para'],
    'deep': ['box', 'table', 'table', 'box', 'para'],
    'colcells': ['cols', 'table', 'table', 'para'],
}
ATTRS = ['size', 'font', 'italic', 'color', 'back', 'rise', 'align', 'lines', 'indent', 'list']
PARA = ('align', 'lines', 'indent', 'list')


def configs(tier):
    q = tier == 'quick'
    out = []
    for k, sh in enumerate(SHAPES):
        if q and k >= 10:
            break
        for a in ATTRS:
            if q and (k + ATTRS.index(a)) % 2 and k > 2:
                continue
            # each notation in a part of the configurations
            for how in ((('dict', 'name', 'key')[(k + ATTRS.index(a)) % 3],) if q else ('dict', 'name', 'key')):
                if how == 'key' and (SHAPES[sh][-1] not in ('para', 'frag') or a in PARA + ('rise', 'back')):
                    how = 'dict'
                out.append(('nested', dict(sh=sh, a=a, how=how)))
    for sh in (('box', 'cells') if q else SHAPES):
        for a in ATTRS:
            out.append(('section', dict(sh=sh, a=a)))
    out += [('defaults', dict(what=w)) for w in ('text', 'list', 'table', 'box')]
    out += [('printed', dict(where=w)) for w in ('box', 'boxes', 'cell', 'cellbox', 'group', 'section')]
    out += [('documents', dict(what=w)) for w in ('content', 'running', 'footnotes')]
    return out


class Fixed:
    """numbers instead of symbols"""
    def real(self, name, lo, hi):
        return lo + (hi - lo) * (0.25 + 0.125 * int(name[-1]))


class Narrow:
    """symbols of smaller ranges"""
    def __init__(self, cx):
        self.cx = cx

    def real(self, name, lo, hi):
        return self.cx.real(name, lo + (hi - lo) * 0.3, lo + (hi - lo) * 0.5)


def some(cx, a, i):
    """values of an attribute at a level"""
    if a == 'size':
        return {'s': cx.real('size%d' % i, 5, 20)}
    if a == 'font':
        return {'f': ['Times', 'Courier', 'Helvetica', 'Times', 'Courier'][i], 'b': i % 2 == 0}
    if a == 'italic':
        return {'i': i % 2 == 0, 'u': i % 3 != 1}
    if a == 'color':
        return {'c': cx.real('gray%d' % i, 0, 1) if i % 2 else [1, cx.real('green%d' % i, 0, 1), 0]}
    if a == 'back':
        return {'bg': cx.real('back%d' % i, 0, 1)} if i % 2 == 0 else {'bg': None}
    if a == 'rise':
        return {'r': cx.real('rise%d' % i, -1, 1)}
    if a == 'align':
        return {'text_align': 'crjlr'[i]}
    if a == 'lines':
        return {'line_height': cx.real('lines%d' % i, 1, 3)}
    if a == 'indent':
        return {'indent': cx.real('indent%d' % i, 0, 20)}
    if a == 'list':
        return {'list_text': '%d.' % i, 'list_indent': cx.real('list%d' % i, 10, 20), 'list_style': {'b': True} if i % 2 else {'c': 0.3}}


class Builder:
    """the same contents with styles on the containers, or on every paragraph"""

    def __init__(self, own, flat, how):
        self.own, self.flat, self.how = own, flat, how
        self.formats = {}

    def styled(self, d, i, over):
        """d with what level i asks for"""
        st = self.own[i]
        if self.flat:
            if over is not None and over:
                d['style'] = over
        elif st:
            if self.how == 'name':
                self.formats['level%d' % i] = st
                d['style'] = 'level%d' % i
            else:
                d['style'] = st
        return d

    def key(self, i, over, para):
        """the key of a paragraph"""
        if self.flat or self.how != 'key' or not self.own[i]:
            return '.'
        st = self.own[i]
        if all(k in ('b', 'i', 'u', 'f') for k in st):
            out = ['%s:%s' % (k, v if k == 'f' else int(v)) for k, v in st.items()]
            return '.' + ';'.join(out)
        return '.'

    def plain(self, text, over):
        return {'.': text, 'style': over} if self.flat and over else text

    def make(self, kinds, i=0, over=None):
        """the element of a level and of those inside"""
        outer = dict(over or {})
        over = dict(outer, **self.own[i])
        kind = kinds[i]
        n = str(i)
        if kind in ('para', 'frag'):
            inner = ['ab%s cd' % n]
            if i + 1 < len(kinds):
                inner += [self.make(kinds, i + 1, over), ' ef' + n]
            elif kind == 'para':
                inner = ['ab%s cd\nef%s gh ij' % (n, n)]
            k = self.key(i, over, kind == 'para')
            d = {k: inner}
            return d if k != '.' else self.styled(d, i, over)
        child = self.make(kinds, i + 1, over)
        after = self.plain('xx' + n, over)
        before = self.plain('yy' + n, over)
        if kind == 'box':
            d = {'content': [before, child, after]}
        elif kind == 'cols':
            d = {'content': [before, child, after], 'cols': {'count': 2, 'gap': 8}}
        elif kind == 'group':
            d = {'group': [before, child, after]}
        else:
            d = {'table': [[before, child], [after, self.plain('zz' + n, over)]]}
        return self.styled(d, i, None)


def owns(cx, kinds, a):
    out = []
    # balancing columns takes many comparisons: one symbolic value at a time
    which = cx.choice('symbolic', [i for i in range(len(kinds)) if i < 2 or kinds[i] == 'para']) if 'cols' in kinds and a not in ('font', 'italic', 'align') else None
    for i in range(len(kinds)):
        fits = not (kinds[i] == 'frag' and a in PARA)
        out.append(some(cx if which is None else Narrow(cx) if which == i else Fixed(), a, i) if fits and cx.bool('given%d' % i) else {})
    return out


def compare(cx, a, b, msg):
    a, b = draw(cx, a), draw(cx, b)
    cx.check(len(a.pages) == len(b.pages), msg)
    for x, y in zip(a.events, b.events):
        same_events(cx, x, y, msg)


def nested(cx, sh, a, how):
    kinds = SHAPES[sh]
    own = owns(cx, kinds, a)
    docs = []
    for flat in (False, True):
        b = Builder(own, flat, how)
        d = b.make(kinds)
        pdf = cx.mod('pdf').PDF(page_size=(500, 900), margin=10)
        pdf.formats.update(b.formats)
        pdf.add_page()
        if kinds[0] == 'table':
            pdf.table(d['table'], **{k: v for k, v in d.items() if k != 'table'})
        elif kinds[0] in ('box', 'cols'):
            pdf.content(d)
        else:
            pdf.content({'content': [d]})
        pdf.text('after')
        docs.append(pdf)
    compare(cx, docs[0], docs[1], 'a style of a container applies to everything inside that has no own')


def section(cx, sh, a):
    """styles of the document and of its sections"""
    kinds = ['box'] + SHAPES[sh]
    top = {} if a in ('rise', 'back', 'italic', 'list') or not cx.bool('top') else some(cx, a, 4)
    if a == 'font':
        top.pop('b', None)
    own = owns(cx, kinds, a)
    docs = []
    for flat in (False, True):
        b = Builder(own, flat, 'name')
        inner = b.make(kinds, 0, top)
        page = {'page_size': (500, 900), 'margin': 10}
        doc = {'style': dict(page, **({} if flat else top)), 'formats': b.formats,
               'sections': [inner, {'content': [b.plain('next', top)]}]}
        D = cx.mod('document').PDFDocument(doc)
        D.run()
        docs.append(D)
    compare(cx, docs[0], docs[1], 'a style of a document or section applies to everything inside that has no own')


def default(cx):
    """some defaults, as arguments of PDF and as style"""
    args, st = {}, {}
    for arg, key, val in (('font_family', 'f', lambda: 'Times'), ('font_size', 's', lambda: cx.real('size', 5, 14)),
                          ('font_color', 'c', lambda: cx.real('color', 0, 1)), ('text_align', 'text_align', lambda: cx.choice('align', ['c', 'r', 'j'])),
                          ('line_height', 'line_height', lambda: cx.real('line', 1, 2)), ('indent', 'indent', lambda: cx.real('indent', 0, 20))):
        if cx.bool(arg):
            args[arg] = st[key] = val()
    return args, st


def defaults(cx, what):
    """defaults of PDF are the same as asking for them"""
    args, st = default(cx)
    docs = []
    for flat in (False, True):
        pdf = cx.mod('pdf').PDF(page_size=(150, 900), margin=10, **({} if flat else args))
        pdf.add_page()
        words = 'aa bb cc\ndd'
        par = {k: v for k, v in st.items() if k in ('text_align', 'line_height', 'indent')} if flat else {}
        text = {'.': words, 'style': {k: v for k, v in st.items() if k not in par}} if flat else words
        if what == 'text':
            pdf.text(text, **par)
            pdf.text(text, **dict(par, text_align='l'))
            pdf.text(text, **dict(par, line_height=1.4))
            pdf.text(text, **dict(par, indent=3))
        elif what == 'list':
            pdf.text(text, list_text='- ', list_indent=15, **par)
        elif what == 'table':
            pdf.table([[words, {'.b': 'xx yy'}], [{'content': [words]}, {'table': [[words]]}]], style=st if flat else None)
        else:
            pdf.content({'content': [words, {'content': [words], 'style': {'r': 0.2}}, {'table': [[words]]}, {'group': [words]}], 'style': st if flat else {}})
        docs.append(pdf)
    compare(cx, docs[0], docs[1], 'the defaults of a document apply to what does not ask for something else')


def printed(cx, where):
    """a paragraph in a container is the one that PDF.text prints"""
    st, par = {}, {}
    part = cx.choice('part', ['size', 'look', 'none', 'key'])
    key = '.'
    if part == 'key':
        # attributes in both notations: the style wins over the key
        key = '.s:7;c:0.4;b;f:Times;r:0.25'
        st = {'s': 12, 'b': False, 'r': 0}
    for a in ('size', 'font', 'italic', 'color', 'back', 'rise'):
        if part == ('size' if a in ('size', 'font', 'rise') else 'look'):
            st.update(some(cx, a, 2 if a != 'color' else 1))
    settings = cx.choice('settings', list(PARA))
    how = cx.choice('align', [None, 0, 2])
    if settings == 'align':
        how = 1
    for a in PARA:
        if a == 'align':
            if how is not None:
                par.update(some(cx, a, how))
        elif settings == a:
            par.update(some(cx, a, 1))
    words = cx.choice('words', ['aa bb cc dd ee ff gg\nhh ii', ['aa bb cc ', {'.b:1': 'dd ee ff'}, ' gg hh ii']])
    for d, k in ((st, 's'), (par, 'list_indent'), (par, 'indent')):
        if k in d:
            d[k] = cx.real('less', 9, 9.5)
    docs = []
    for flat in (False, True):
        pdf = cx.mod('pdf').PDF(page_size=(130, 1200), margin=10)
        el = {key: words, 'style': dict(st, **par)}
        none = {'cell_margin': 0, 'border_width': 0}
        if flat or where != 'section':
            pdf.add_page()
        if flat:
            pdf.text({key: words, 'style': st}, **par)
        elif where == 'box':
            pdf.content({'content': [el]})
        elif where == 'boxes':
            pdf.content({'content': [{'content': [{'content': [el]}]}]})
        elif where == 'cell':
            pdf.table([[el]], style=none)
        elif where == 'cellbox':
            pdf.table([[{'content': [el]}]], style=none)
        elif where == 'group':
            pdf.content({'content': [{'group': [el]}]})
        else:
            pdf = cx.mod('document').PDFDocument({'style': {'page_size': (130, 1200), 'margin': 10}, 'sections': [{'content': [el]}]})
            pdf.run()
        docs.append(pdf)
    compare(cx, docs[0], docs[1], 'a paragraph is the same wherever it is printed')


def documents(cx, what):
    """defaults of PDFDocument"""
    args, st = default(cx)
    docs = []
    for flat in (False, True):
        words = {'.': 'aa bb cc\ndd', 'style': dict(st)} if flat else 'aa bb cc\ndd'
        doc = {'style': dict({'page_size': (150, 700), 'margin': 40}, **({} if flat else st)), 'sections': [{'content': [words]}]}
        if what == 'running':
            doc['running_sections'] = {'h': {'content': [words, {'table': [[words]]}], 'x': 'left', 'y': 10, 'width': 100, 'height': 200}}
            doc['sections'][0]['running_sections'] = ['h']
        elif what == 'footnotes':
            # footnotes have a size and a color of their own
            st = {k: v for k, v in st.items() if k not in ('s', 'c')}
            doc['sections'][0]['content'].append({'.': ['ee', {'footnote': words}], 'style': dict(st) if flat else {}})
            doc['style'].pop('s', None)
            doc['style'].pop('c', None)
            if flat:
                words['style'] = dict(st)
        D = cx.mod('document').PDFDocument(doc)
        D.run()
        docs.append(D)
    compare(cx, docs[0], docs[1], 'the defaults of a document apply to what does not ask for something else')
