"""C10: every fragment in its own style."""
from verif_o.draw import draw
from verif_o.para import lines_of, match, tokens, check_style
from verif_h.par import TEXTS, DEFAULTS, lines, content, longer

PROPERTY = 'C10'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'long texts': '120 (thorough: 500) words in fragments of all kinds, on pages of symbolic width',
          'styles': 'two (quick) / three (thorough) neighbouring fragments, each with any of 5 families, bold, italic and with symbolic size 1..50, gray level or RGB color and rise -1..1, given or inherited',
          'nesting': 'fragments nested up to 3 deep, every subset of the attributes overridden at each level; style given as a dictionary, as a compact key or by name',
          'breaks': '8 fixed paragraphs at every width 15..120 in a document, over lines and pages'}
PATH_TIMEOUT = 100


def configs(tier):
    q = tier == 'quick'
    out = [('neighbours', dict(n=2, kind=k)) for k in ('font', 'size', 'color', 'rise', 'all')]
    if not q:
        out += [('neighbours', dict(n=3, kind=k)) for k in ('font', 'size', 'color', 'rise')]
    out += [('nested', dict(depth=d)) for d in (2, 3)]
    out += [('notations', {}), ('defaults', {})]
    out += [('broken', dict(t=t)) for t in (('mixed', 'joined', 'breaks', 'raised') if q else TEXTS)]
    out += [('long', dict(n=n)) for n in ((120,) if q else (120, 500))]
    out += [('many', {}), ('late', {})]
    out += [('silent', dict(own=k)) for k in ('size', 'color', 'rise', 'font')]
    return out


def verify(cx, doc_lines, frags, defaults=DEFAULTS):
    match(cx, doc_lines, tokens(cx, frags))
    for ln in doc_lines:
        for ch in ln.chars:
            if ch.style is not None:
                check_style(cx, ch, defaults)


def document_lines(cx, pdf):
    doc = draw(cx, pdf)
    return [ln for evs in doc.events for ln in lines_of(cx, evs)]


def some_style(cx, i, kind):
    st = {}
    if kind in ('font', 'all'):
        if cx.bool('font%d' % i):
            fams = ['Times', 'Courier', 'Symbol', 'ZapfDingbats'] if kind == 'font' else ['Times']
            st['f'] = cx.choice('family%d' % i, fams)
        if cx.bool('bold%d' % i):
            st['b'] = True
        if kind == 'font' and cx.bool('italic%d' % i):
            st['i'] = True
    if kind in ('size', 'all') and cx.bool('sized%d' % i):
        st['s'] = cx.real('size%d' % i, 1, 50)
    if kind in ('color', 'all'):
        how = cx.choice('color%d' % i, ['no', 'gray', 'rgb'] if kind == 'color' else ['no', 'gray'])
        if how == 'gray':
            st['c'] = cx.real('gray%d' % i, 0, 1)
        elif how == 'rgb':
            st['c'] = [cx.real('%s%d' % (x, i), 0, 1) for x in 'rgb']
    if kind in ('rise', 'size', 'all') and (kind != 'all' or i == 0) and cx.bool('raised%d' % i):
        st['r'] = cx.real('rise%d' % i, -1, 1) if kind == 'rise' else cx.choice('rise%d' % i, [0.5, -0.25])
    return st


def neighbours(cx, n, kind):
    pdf = cx.mod('pdf').PDF(page_size=(600, 600), margin=0)
    pdf.add_page()
    frags = [(['ab', 'c d', ' e'][i], some_style(cx, i, kind)) for i in range(n)]
    pdf.text(content(frags))
    pdf.text('end')
    verify(cx, document_lines(cx, pdf),
           frags + [('\nend', {'s': pdf.font_size, 'c': pdf.font_color})])


ATTRS = [('b', True), ('s', 15), ('c', 0.5), ('r', 0.3)]


def nested(cx, depth):
    """a fragment in a fragment in a fragment: the innermost setting counts"""
    pdf = cx.mod('pdf').PDF(page_size=(600, 600), margin=0)
    pdf.add_page()
    frags = []

    def build(level, style):
        own = {}
        for k, v in (ATTRS if level == 1 or depth < 3 else ATTRS[:2]):
            if cx.bool('%s%d' % (k, level)):
                own[k] = False if k == 'b' and style.get('b') else v + level if k == 's' else v / level if k in 'cr' else v
        st = dict(style)
        st.update(own)
        els = ['x%d ' % level]
        frags.append((els[0], st))
        if level < depth:
            els.append(build(level + 1, st))
        els.append(' y%d ' % level)
        frags.append((els[-1], st))
        return {'.': els, 'style': own}
    c = build(1, {})
    c['style'] = dict(DEFAULTS, **c['style'])
    pdf.text(c)
    verify(cx, document_lines(cx, pdf), frags)


def notations(cx):
    """dictionaries, compact keys and named styles"""
    pdf = cx.mod('pdf').PDF(page_size=(600, 600), margin=0)
    pdf.add_page()
    s = cx.int('s', 5, 30)
    pdf.formats['fmt'] = {'s': s, 'i': True, 'c': [0.25, 0.5, 0.75]}
    frags = [('aa ', {})]
    els = ['aa ']
    want = {'s': s, 'i': True, 'c': [0.25, 0.5, 0.75]}
    for i in range(2):
        how = cx.choice('how%d' % i, ['dict', 'key', 'name', 'both'])
        if how == 'dict':
            els.append({'.': 'bb ', 'style': dict(want)})
            frags.append(('bb ', want))
        elif how == 'key':
            els.append({'.f:Times;b:1;s:12;c:0.2 0.4 0.6;r:0.5': 'bb '})
            frags.append(('bb ', {'f': 'Times', 'b': True, 's': 12, 'c': [0.2, 0.4, 0.6], 'r': 0.5}))
        elif how == 'name':
            els.append({'.': 'bb ', 'style': 'fmt'})
            frags.append(('bb ', want))
        else:
            els.append({'.b:1;s:12': 'bb ', 'style': {'s': s}})
            frags.append(('bb ', {'b': True, 's': s}))
    pdf.text({'.': els, 'style': dict(DEFAULTS)})
    verify(cx, document_lines(cx, pdf), frags)


def defaults(cx):
    """paragraphs without a style of their own take the style of the document"""
    size, gray = cx.real('size', 4, 20), cx.real('gray', 0, 1)
    fam = cx.choice('family', ['Helvetica', 'Times', 'Courier'])
    pdf = cx.mod('pdf').PDF(page_size=(600, 600), margin=0, font_family=fam, font_size=size, font_color=gray)
    pdf.add_page()
    how = cx.choice('how', ['text', 'list', 'content', 'table'])
    t = ['aa ', {'.b:1': 'bb'}, ' cc']
    if how == 'text':
        pdf.text('aa')
        frags = [('aa', {})]
    elif how == 'list':
        pdf.text(t)
        frags = [('aa ', {}), ('bb', {'b': True}), (' cc', {})]
    else:
        cell = {'.': t}
        if how == 'content':
            pdf.content({'content': [cell, 'dd']})
        else:
            pdf.table([[cell], ['dd']])
        frags = [('aa ', {}), ('bb', {'b': True}), (' cc\ndd', {})]
    verify(cx, document_lines(cx, pdf), frags, {'f': fam, 's': size, 'c': gray, 'r': 0})


def broken(cx, t):
    """over lines and pages: every page declares its fonts"""
    frags = TEXTS[t]
    w = cx.real('w', 15, 120)
    pdf = cx.mod('pdf').PDF(page_size=(w, cx.choice('h', [34, 52, 400])), margin=0)
    pdf.add_page()
    pdf.text(content(frags), text_align=cx.choice('align', ['l', 'j']))
    verify(cx, document_lines(cx, pdf), frags)


def long(cx, n):
    """many fragments over many lines and pages"""
    frags = longer(n)
    pdf = cx.mod('pdf').PDF(page_size=(cx.real('w', 90, 94), 130), margin=0)
    pdf.add_page()
    pdf.text(content(frags), text_align=cx.choice('align', ['l', 'j']))
    verify(cx, document_lines(cx, pdf), frags)


def silent(cx, own):
    """fragments that show nothing leave the style of the others alone"""
    pdf = cx.mod('pdf').PDF(page_size=(cx.choice('w', [600, 25] if own in ('color', 'font') else [600]), 600), margin=0)
    pdf.add_page()
    v = cx.real('v', 0, 1)
    st = {'s': 3 + 20 * v} if own == 'size' else {'c': v} if own == 'color' else {'r': v} if own == 'rise' else {'f': 'Courier', 'i': True}
    frags = [('ab' + cx.choice('end', ['', ' ']), {}), (cx.choice('text', [' ', '  ', '']), st),
             ('cd' + cx.choice('end2', ['', ' ']), cx.choice('style', [{}, {'b': True}, dict(st)]))]
    if cx.bool('more'):
        frags += [(' ', {'s': 20, 'b': True}), ('ef', {})]
    pdf.text(content(frags), text_align=cx.choice('align', ['l', 'j']) if own == 'font' else 'l')
    verify(cx, document_lines(cx, pdf), frags)


def many(cx):
    """paragraphs after each other in their styles, list markers in theirs"""
    pdf = cx.mod('pdf').PDF(page_size=(300, 600), margin=0)
    pdf.add_page()
    frags = []
    for i in range(2):
        ms = {}
        if cx.bool('mstyle%d' % i):
            ms = {'c': cx.real('mgray%d' % i, 0, 1), 'b': True} if i else {'s': 6, 'f': 'Times'}
        ts = cx.choice('tstyle%d' % i, [{}, {'c': [1, 0, 0], 'i': True}, {'s': 15}])
        given = dict(ms)
        if cx.bool('named%d' % i):
            pdf.formats['mark%d' % i] = given
            given = 'mark%d' % i
        pdf.text(content([('tt uu', ts)]), list_text='#', list_style=given, list_indent=20,
                 text_align=cx.choice('align%d' % i, ['l', 'j']))
        mst = dict(ts)
        mst.update(ms)
        frags += [('#', mst), ('tt uu\n', ts)]
    verify(cx, document_lines(cx, pdf), frags)


def late(cx):
    """a list paragraph that may start on the next page"""
    pdf = cx.mod('pdf').PDF(page_size=(200, 70), margin=10)
    pdf.add_page()
    first = {'s': cx.real('size', 4, 48)}
    ms = cx.choice('marker', [{'f': 'Courier'}, {'b': True, 's': 14}])
    pdf.text(content([('aa', first)]))
    frags = cx.choice('texts', [[('tt uu vv', {})], [('tt ', {'b': True}), ('uu ', {'s': 7}), ('vv', {}), (' ww', {'c': 0.6, 'i': True})]])
    if cx.bool('box'):
        pdf.content({'content': [dict(content(frags), style=dict(DEFAULTS, list_text='#', list_style=ms, list_indent=20))]})
    else:
        pdf.text(content(frags), list_text='#', list_style=ms, list_indent=20)
    verify(cx, document_lines(cx, pdf), [('aa\n', first), ('#', dict(frags[0][1], **ms))] + frags)
