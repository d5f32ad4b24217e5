"""C08: drawn text is the given text."""
from verif_o.draw import draw
from verif_o.para import lines_of, match, tokens, read_stream
from verif_h.par import longer, content

PROPERTY = 'C08'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'long texts': '150 (thorough: 600) words in fragments of all kinds, on pages of symbolic width',
          'texts': 'any Latin-1 character but the line feed inside a word, one string of 2 symbolic characters of printable Latin-1, or of up to 4 (quick) / 5 (thorough) symbolic characters out of a letter, space, newline, parentheses and backslash; up to 3 fragments of different style with 1 or 2 such characters each, standing alone or next to words',
          'page': 'symbolic width, so that the text is broken over lines in every possible way; height for all lines',
          'numbers': 'a symbolic integer -20..130 or one of 6 other numbers as a part of a text, an element of a box or group, or a cell of a table',
          'places': 'paragraphs, content boxes, table cells, list markers of up to 2 symbolic characters'}
PATH_TIMEOUT = 100
SMALL = 'a (\\\n'
FULL = [(32, 126), (161, 172), (174, 255)]


def configs(tier):
    q = tier == 'quick'
    out = [('chars', dict(k=1)), ('chars', dict(k=2))]
    out += [('small', dict(k=k)) for k in ((3, 4) if q else (3, 4, 5))]
    out += [('fragments', dict(shape=s)) for s in ((1, 1, 1), (0, 2, 0), (1, 0, 2), (2, 1))]
    if not q:
        out += [('fragments', dict(shape=s)) for s in ((2, 2), (1, 2, 1), (2, 0, 2), (1, 1, 1, 1))]
    out += [('broken', dict(t=t, align=a)) for t in range(len(TEXTS)) for a in 'lj']
    out += [('broken', dict(t=t, align=a)) for t in ((0,) if q else range(len(TEXTS))) for a in 'rc']
    out += [('long', dict(n=n, align=a)) for n in ((150,) if q else (150, 600)) for a in 'lj']
    out += [('markers', dict(k=k)) for k in (1, 2)]
    out += [('numbers', dict(how=h)) for h in ('text', 'whole', 'content', 'group', 'table', 'cellbox')]
    out += [('places', dict(how=h)) for h in ('content', 'columns', 'table', 'nested', 'variable')]
    return out


STYLES = [{}, {'b': True}, {'s': 8, 'c': 0.5}, {'f': 'Courier', 'u': True}]


def frag(text, i):
    st = STYLES[i]
    return {'.': text, 'style': dict(st)} if st else text


def verify(cx, pdf, frags):
    doc = draw(cx, pdf)
    lines = [ln for evs in doc.events for ln in lines_of(cx, evs)]
    match(cx, lines, tokens(cx, frags))
    return lines


def new(cx, w=500, h=800):
    pdf = cx.mod('pdf').PDF(page_size=(w, h), margin=0, font_size=10)
    pdf.add_page()
    return pdf


def chars(cx, k):
    pdf = new(cx)
    t = cx.str('text', k, FULL if k > 1 else [(1, 9), (11, 31), (33, 255)])
    if k == 1:
        t = 'x' + t + 'y'
    pdf.text(t)
    verify(cx, pdf, [(t, None)])


def small(cx, k):
    pdf = new(cx)
    t = cx.str('text', k, SMALL + ')')
    if cx.bool('joined'):
        pdf.text({'.': ['x', t, 'y']})
        verify(cx, pdf, [('x', None), (t, None), ('y', None)])
    else:
        pdf.text(t)
        verify(cx, pdf, [(t, None)])


def fragments(cx, shape):
    """neighbouring fragments, some of them symbolic"""
    pdf = new(cx)
    frags = []
    for i, n in enumerate(shape):
        frags.append((cx.str('text%d' % i, n, SMALL) if n else ['mn', 'o p', ' q '][i], i))
    pdf.text([frag(t, i) for t, i in frags])
    verify(cx, pdf, frags)


TEXTS = [
    [('aa bb ccc dd eee', 0)],
    [('aa b', 0), ('b cc', 1), (' dd', 2), (' ', 0), ('ee ff', 3)],
    [('aa (bb) \\ cc\ndd ', 0), ('e\\e', 1), ('(', 2), ('ff', 3), (') gg', 0)],
    [('one ', 0), ('', 1), ('  two', 2), ('\n', 0), ('  three  ', 1), ('four', 3), ('five six', 0)],
    [('averylongword x', 0), (' yy', 1), ('zz', 2), ('\nlast', 0)],
]


def broken(cx, t, align):
    """fixed texts at every width"""
    w = cx.real('w', 12, 150)
    pdf = new(cx, w, 500)
    frags = TEXTS[t]
    pdf.text([frag(x, i) for x, i in frags], text_align=align)
    verify(cx, pdf, frags)


def long(cx, n, align):
    """many words over many lines and pages"""
    w = cx.real('w', 90, 94)
    pdf = new(cx, w, 130)
    frags = longer(n)
    pdf.text(content(frags), text_align=align)
    pdf.text('(end)')
    verify(cx, pdf, [(t, None) for t, _ in frags] + [('\n(end)', None)])


def markers(cx, k):
    pdf = new(cx)
    m = cx.str('marker', k, [(33, 126)])
    t = cx.str('text', 1, '()\\')
    pdf.text(t, list_text=m)
    pdf.text('end')
    verify(cx, pdf, [(m, None), (t, None), ('\nend', None)])


NUMBERS = [0, 0.0, 2.5, -100, 1000, 0.125]


def numbers(cx, how):
    """numbers instead of strings"""
    pdf = new(cx, 130, 300)
    n = cx.int('n', -20, 130) if cx.bool('whole') else cx.choice('number', NUMBERS)
    t = ''.join(c for c in str(n))
    if how == 'text':
        pdf.text(['a', n, ' ', {'.b:1': n}, {'.': ['b', n]}])
        frags = [('a' + t + ' ' + t + 'b' + t, None)]
    elif how == 'whole':
        pdf.text({'.': n})
        pdf.text([n])
        frags = [(t + '\n' + t, None)]
    elif how == 'content':
        pdf.content({'content': ['a', n, {'.i:1': n}, {'content': [n]}, 'b']})
        frags = [('\n'.join(['a', t, t, t, 'b']), None)]
    elif how == 'group':
        pdf.content({'content': [{'group': ['a', n, {'.i:1': n}]}, 'b']})
        frags = [('\n'.join(['a', t, t, 'b']), None)]
    elif how == 'table':
        pdf.table([[n], ['b'], [{'.b': n}], [n]])
        frags = [('\n'.join([t, 'b', t, t]), None)]
    else:
        pdf.table([[{'content': [n, 'a']}], [{'table': [[n], ['b']]}]])
        frags = [('\n'.join([t, 'a', t, 'b']), None)]
    verify(cx, pdf, frags)


def places(cx, how):
    """the same text in other places"""
    w = 130
    pdf = new(cx, w, 300)
    t = 'm' + cx.str('text', 2, SMALL if how != 'variable' else 'a (\\') + 'n'
    if how == 'content':
        pdf.content({'content': [t, {'.b:1': ['x', t]}]})
        frags = [(t + '\nx' + t, None)]
    elif how == 'columns':
        pdf.content({'content': [t, 'mid', t], 'cols': {'count': 2, 'gap': 4}})
        frags = [(t + '\nmid\n' + t, None)]
    elif how == 'table':
        pdf.table([[t], ['b'], [t]])
        frags = [(t + '\nb\n' + t, None)]
    elif how == 'nested':
        pdf.text({'.': ['p', {'.i:1': ['q', {'.b:1': t}, 'r']}, t]})
        frags = [('pq' + t + 'r' + t, None)]
    else:
        pdf.context['v'] = t
        pdf.text(['p', {'var': 'v'}, 'r'])
        frags = [('p' + t + 'r', None)]
    verify(cx, pdf, frags)
