"""Paragraphs for the layout checks."""
from verif_o.para import lines_of, read_stream

DEFAULTS = {'f': 'Helvetica', 's': 10, 'c': 0.1, 'r': 0}

# fragments: (text, style)
TEXTS = {
    'plain': [('aa bbb cc dd eee f', {})],
    'mixed': [('aa b', {}), ('b cc', {'b': True}), (' dd', {'s': 14}), (' ', {}), ('ee ff', {'i': True, 'f': 'Times'})],
    'joined': [('aa ', {}), ('bb', {'b': True}), ('cc', {'i': True}), ('dd ', {}), ('ee', {'s': 7}), (' ff', {'c': 0.7})],
    'breaks': [('aa bb\ncc ', {}), ('dd', {'b': True}), ('\nee ff', {}), (' gg', {'s': 6})],
    'long': [('a verylongword bb', {}), (' cc', {'s': 13}), ('verylongtoo', {'b': True}), (' d', {})],
    'raised': [('aa ', {}), ('b', {'r': 0.4, 's': 7}), (' cc', {}), ('d', {'r': -0.3}), (' ee ff', {})],
    'one': [('word', {})],
    'spaced': [('  aa   bb ', {}), (' cc  ', {'b': True}), ('  dd', {})],
}


def longer(n, marks=False):
    """n words in fragments of some words, with all kinds of ends"""
    looks = [{}, {'b': True}, {'s': 13}, {'i': True, 'f': 'Times'}, {}, {'c': 0.6}, {'s': 7, 'r': 0.3}, {'f': 'Courier'}]
    extra = [{}, {'uri': 'U1'}, {'u': True}, {}, {'bg': 0.9}, {'ref': 'L'}, {'u': True, 'uri': 'U2'}] if marks else [{}]
    frags, text, k = [], '', 0
    for i in range(n):
        word = 'abcdefghijklmnopqrstuvwxyz'[i % 26] * (1 + i * 7 % 5) + str(i)
        text += word
        if i == n - 1:
            pass
        elif i % 17 == 16:
            text += '\n'
        elif i % 11 != 5:
            text += ' '
        if i % 4 == 3 or i % 11 == 5 or i == n - 1:
            frags.append((text, dict(looks[k % len(looks)], **extra[k % len(extra)])))
            text, k = '', k + 1
    return frags


def content(frags, **more):
    els = []
    for text, st in frags:
        st = dict(st)
        extra = {k: st.pop(k) for k in ('uri', 'ref', 'label') if k in st}
        if st or extra:
            d = {'.': text, 'style': st}
            d.update(extra)
            els.append(d)
        else:
            els.append(text)
    out = {'.': els, 'style': dict(DEFAULTS)}
    out.update(more)
    return out


def paragraph(cx, pdf, frags, w, h, x=0, y=0, **k):
    """a paragraph object laid out in its first rectangle"""
    t = cx.mod('text').PDFText(content(frags), w, h, x, y, fonts=pdf.fonts, pdf=pdf, **k)
    t.run()
    return t


def events(cx, pdf, t):
    return read_stream(cx, pdf, t.stream)


def lines(cx, pdf, t):
    return lines_of(cx, events(cx, pdf, t))


def max_size(frags):
    return max(st.get('s', DEFAULTS['s']) for _, st in frags)
