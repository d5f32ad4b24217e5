"""C28: embedded TrueType fonts."""
from verif_h.c13 import verify
from verif_h.ttf import Face, install
from verif_o.draw import draw, same_events
from verif_o.para import lines_of, match, tokens

PROPERTY = 'C28'
BUDGET = {'quick': 200, 'thorough': 900}
BOUNDS = {'fonts': 'the interface of fontTools is modelled: faces of up to 13 characters (one of 250) with one or two symbolic glyph numbers (1..65535, distinct or shared), symbolic widths 0..3000 of 1000 or 2048 units per em, up to four modes of a family, two families',
          'texts': 'paragraphs of up to 30 characters of these faces (special characters of PDF strings, characters outside the BMP, characters the face lacks), list markers, all alignments, styles, symbolic sizes 6..20 and widths of the rectangle',
          'histories': 'one or two documents with the same face'}
ASSUMPTIONS = ['two characters that share a glyph share its code: reading gives back one of them',
               'only registered modes are asked for; text elements of one symbolic size']
PATH_TIMEOUT = 100
TOL = 0.03

GIDS = {'a': 3, 'b': 4, 'c': 0x28, 'd': 0x2829, 'e': 0x5c0d, ' ': 1, '(': 0x0d0a, ')': 0xd83d, '\\': 0x0a5c, '1': 0xffff, '.': 6,
        '\u03a9': 7, '\u4e2d': 0xdc00, '\U0001f600': 5}


# ranges of glyph numbers
WINDOWS = [(14, 39), (0x20, 0x5f), (0x2820, 0x283f), (0x5bf0, 0x5c0f), (0xd7f8, 0xd808), (0xfff0, 0xfffe)]


def configs(tier):
    q = tier == 'quick'
    out = []
    for t in TEXTS:
        out.append(('shown', dict(t=t)))
    for a in 'lrcj':
        for t in ('plain', 'mixed') if q else TEXTS:
            out.append(('laid', dict(t=t, align=a)))
    out += [('numbers', dict(n=n, lo=a, hi=b)) for a, b in WINDOWS for n in ((1, 2) if q else (1, 2, 3))]
    out += [('declared', dict(k=k, lo=a, hi=b)) for k in ('order', 'shared', 'run', 'large', 'bare') for a, b in (WINDOWS if not q else WINDOWS[2:5])]
    if not q:
        out += [('numbers', dict(n=1, lo=1, hi=65535)), ('declared', dict(k='bare', lo=1, hi=65000))]
    out += [('modes', dict(k=k)) for k in range(len(STYLES))]
    out += [('marked', dict(k=k)) for k in range(len(MARKS))]
    out += [('documents', {}), ('embedded', {})]
    return out


TEXTS = {
    'plain': [('ab ba a ab b', {})],
    'mixed': [('a b', {}), ('b a', {'b': True}), (' aa', {'s': 14}), (' ', {}), ('bb a', {'b': False})],
    'special': [('(a) \\b\\ )( ed', {}), ('c.1 ', {'b': True}), ('ee\nde', {})],
    'wide': [('\u03a9a \u4e2d \U0001f600', {}), ('a\U0001f600 b', {'b': True})],
    'std': [('a b', {}), ('aa(b ', {'f': 'Helvetica'}), ('b a', {'f': 'Times', 'b': True}), ('b a', {})],
}


def glyphs(cx, **sym):
    out = []
    for c, g in GIDS.items():
        w = {' ': 250, 'a': 500, 'b': 620, '\u4e2d': 2048}.get(c, 555)
        out.append((c, sym.get('g_' + c, g), sym.get('w_' + c, w)))
    return out


def faces(cx, upem=1000, **sym):
    n = Face('Face-Regular', glyphs(cx, **sym), upem)
    b = Face('Face-Bold', [(c, 40 + i, 300 + 37 * i) for i, c in enumerate(GIDS)], 2048, weight=700, notdef=700)
    return {'n': n, 'b': b}


def start(cx, w=400, h=300, **k):
    pdf = cx.mod('pdf').PDF(page_size=(w, h), margin=0, font_size=10, **k)
    pdf.add_page()
    return pdf


def content(frags, s=10, f='Face'):
    return {'.': [{'.': t, 'style': dict(st)} if st else t for t, st in frags], 'style': {'f': f, 's': s}}


def read(cx, doc, fs):
    """turns the codes of the embedded faces into characters, having checked
    that they select their glyphs and that the document says so"""
    names = {f.name: f for f in fs.values()}
    for evs in doc.events:
        for e in evs:
            if e.kind != 'text' or e.font.obj != 'type0':
                continue
            cx.check(e.font.base in names, 'an embedded font has the name of its file')
            face = names[e.font.base]
            e.face = face
            out = []
            for code in e.codes:
                c = e.font.decode(code)
                if c is None:
                    cx.check(code == 0, 'the mapping to Unicode has every code that is shown')
                    out.append(None)
                    continue
                c = int(c)
                cx.check(c in face.gid, 'codes are mapped to characters of the font')
                cx.check(code == face.gid[c], 'codes select the glyphs of their characters')
                out.append(c)
            e.codes = out
    return [e for evs in doc.events for e in evs if e.kind == 'text']


def styled(cx, ls, base, fs):
    for ln in ls:
        for ch in ln.chars:
            st = dict(base)
            st.update(ch.style or {})
            if ch.style is None:
                continue
            e = ch.ev
            if st['f'] != 'Face':
                cx.check(e.font.family == st['f'], 'text is shown in its own font')
                continue
            mode = ('b' if st.get('b') else '') + ('i' if st.get('i') else '') or 'n'
            cx.check(getattr(e, 'face', None) is fs[mode], 'text is shown in its own font')
            cx.check(cx.close(e.size, st['s'], 0.002), 'text is shown in its own size')
            if ch.code is not None:
                cx.check(cx.close(ch.w - (e.tw if e.font.obj != 'type0' and ch.code == 32 else 0),
                                  e.face.width[ch.code] * e.size / e.face.upem, TOL), 'characters have the widths of the font')


def check_text(cx, pdf, frags, fs, s=10):
    doc = draw(cx, pdf)
    evs = read(cx, doc, fs)
    ls = lines_of(cx, evs)
    match(cx, ls, tokens(cx, frags))
    styled(cx, ls, {'f': 'Face', 's': s}, fs)
    return doc, ls


# ------------------------------------------------------------------ checks

def shown(cx, t):
    """the text can be read back, whatever its sizes and widths"""
    s = cx.real('s', 6, 20)
    fs = faces(cx, upem=cx.choice('upem', [1000, 2048]), w_a=cx.int('wa', 0, 3000))
    install(cx, fs)
    pdf = start(cx)
    pdf.text(content(TEXTS[t], s))
    frags = [(x, dict({'s': s}, **st)) for x, st in TEXTS[t]]
    check_text(cx, pdf, frags, fs, s)


def numbers(cx, n, lo, hi):
    """the text can be read back, whatever the numbers of its glyphs"""
    sym = {}
    used = []
    for c in 'ab '[:n]:
        g = cx.int('g', lo, hi)
        for o in used + [v for k, v in GIDS.items() if k not in 'ab '[:n]]:
            cx.assume(cx.Not(g == o))
        used.append(g)
        sym['g_' + c] = g
    fs = faces(cx, **sym)
    install(cx, fs)
    pdf = start(cx)
    text = [(('a1', 'ab', 'b a')[n - 1], {})]
    pdf.text(content(text))
    check_text(cx, pdf, text, fs)


def laid(cx, t, align):
    """lines are placed by the declared widths"""
    w = cx.real('w', 45, 120)
    fs = faces(cx, upem=1000, w_a=cx.int('wa', 300, 900))
    install(cx, fs)
    pdf = start(cx)
    frags = TEXTS[t]
    pdf._text(content(frags), width=w, height=290, x=20, y=295, text_align=align)
    doc, ls = check_text(cx, pdf, frags, fs)
    verify(cx, ls, 20, w, align, tokens(cx, frags))


def truth(cx, font, face):
    cs = list(face.gid)
    if len(cs) > 20:
        cs = [c for i, c in enumerate(cs) if i % 100 in (0, 1, 99) or c < 0x400 or c > 0xffff or i > len(cs) - 3]
    for c in cs:
        g = face.gid[c]
        cx.check(font.declared(g, face.width[c] * 1000 / face.upem), 'the declared width of a code is that of its glyph')
        ok, some = [], []
        for cond, dst in font.texts(g):
            same = cx.Or(*[len(dst) == 1 and dst[0] == d for d in face.gid if face.glyph[d] == face.glyph[c]])
            ok.append(cx.Implies(cond, same))
            some.append(cond)
        cx.check(cx.And(cx.Or(*some), *ok), 'the mapping to Unicode turns codes into their characters')
    cx.check(font.declared(0, face.notdef * 1000 / face.upem), 'the declared width of the missing glyph is that of the font')


def declared(cx, k, lo, hi):
    """widths and the mapping to Unicode of all of the characters"""
    upem = cx.choice('upem', [1000, 2048])
    w = [cx.int('w', 0, 3000) for i in range(2)]
    g = cx.int('g', lo, hi)
    if k == 'order':
        h = cx.int('h', lo, hi)
        cx.assume(cx.Not(g == h))
        cx.assume(cx.And(*[cx.Not(x == y) for x in (g, h) for y in (700, 65100)]))
        gl = [('a', g, w[0]), ('b', 700, 400), ('c', h, w[1]), (' ', 65100, 250)]
    elif k == 'shared':
        cx.assume(g + 3 <= 65535)
        gl = [(' \u00a0', g, w[0]), ('ab', g + 1, 400), ('c\u0441', g + 2, w[1]), ('d', g + 3, 333)]
    elif k == 'run':
        cx.assume(cx.And(g > 1, g + 5 <= 65535))
        gl = [('a', g, w[0]), ('b', g + 1, w[1]), ('c', g + 2, 410), ('d', g + 3, 420), ('e', g - 1, 430), ('f', g + 5, 440), (' ', 11, 250)]
    elif k == 'large':
        gl = [(chr(0x400 + i), 30000 + i, 400 + i) for i in range(250)] + [('a', g, w[0]), ('\U00020000', 3, w[1]), (' ', 4, 250)]
    else:
        gl = [('a', g, w[0])]
    face = Face('Face-Regular', gl, upem, notdef=cx.choice('notdef', [0, 600]))
    install(cx, {'n': face})
    pdf = start(cx)
    pdf.text(content([('a', {})]))
    doc = draw(cx, pdf)
    e = [e for e in doc.events[0] if e.kind == 'text'][0]
    truth(cx, e.font, face)


STYLES = [
    [('a ', {}), ('b', {'b': True}), ('a', {'i': True}), ('b', {'b': True, 'i': True})],
    [('a ', {'b': True}), ('b', {'b': False}), ('a', {'b': True, 'i': False}), ('b ', {'i': False, 'b': False})],
    [('a ', {'i': True}), ('b', {'b': False, 'i': True}), (' b', {'b': True, 'f': 'Courier'}), (' a', {'b': True, 'i': True})],
]


def four(cx):
    return {m: Face('Face-' + m, [(c, 10 + 20 * j + i, 300 + 100 * j + 11 * i) for i, c in enumerate('ab.1 (')], 1000)
            for j, m in enumerate(('n', 'b', 'i', 'bi'))}


def modes(cx, k):
    """bold and italic text in the faces of its own mode"""
    fs = four(cx)
    install(cx, fs)
    pdf = start(cx)
    s = cx.real('s', 6, 20)
    how = cx.choice('how', ['text', 'document'])
    if how == 'text':
        pdf.text(content(STYLES[k], s))
    else:
        D = cx.mod('document').PDFDocument({
            'style': {'f': 'Face', 's': s, 'margin': 0, 'page_size': (400, 300)}, 'sections': [{'content': [
                [{'.': t, 'style': dict(st)} for t, st in STYLES[k]],
                {'table': [['a', {'.b': 'b'}]], 'style': {'cell_margin': 1}}]}]})
        D.run()
        pdf = D.pdf
        doc = draw(cx, pdf)
        evs = read(cx, doc, fs)
        cells = [e for e in evs if e.codes][-2:]
        cx.check([e.codes for e in cells] == [[97], [98]] and getattr(cells[0], 'face', None) is fs['n'] and getattr(cells[1], 'face', None) is fs['b'],
                 'text of cells is shown in its own font')
        ls = lines_of(cx, evs[:-2])
        match(cx, ls, tokens(cx, STYLES[k]))
        styled(cx, ls, {'f': 'Face', 's': s}, fs)
        return
    check_text(cx, pdf, STYLES[k], fs, s)


MARKS = [('1.', {}, 'n'), ('1(', {'b': True}, 'b'), ('(', {'b': False}, 'n'), ('1', {'f': 'Helvetica'}, None), ('a', {'i': True, 'b': True}, 'bi'),
         ('b', {'f': 'Face', 's': 7}, 'n')]


def marked(cx, k):
    """list markers in an embedded font"""
    fs = four(cx)
    install(cx, fs)
    pdf = start(cx)
    mark, style, mode = MARKS[k]
    bold = cx.bool('bold')
    if bold and mode == 'n' and 'b' not in style:
        mode = 'b'
    if bold and style == {'i': True}:
        mode = 'bi'
    frags = [('ab a', {'b': True} if bold else {}), (' b', {'b': not bold})]
    w = cx.real('w', 60, 90)
    pdf._text(content(frags), list_text=mark, list_style=dict(style), width=w, height=290, x=20, y=295)
    doc = draw(cx, pdf)
    evs = read(cx, doc, fs)
    cx.check(evs[0].codes == [ord(c) for c in mark], 'the marker is shown')
    if mode is not None:
        cx.check(getattr(evs[0], 'face', None) is fs[mode], 'the marker is shown in its own font')
    else:
        cx.check(evs[0].font.family == 'Helvetica', 'the marker is shown in its own font')
    ls = lines_of(cx, evs[1:])
    match(cx, ls, tokens(cx, frags))
    styled(cx, ls, {'f': 'Face', 's': 10}, fs)
    cx.check(cx.close(evs[0].x, 20, TOL), 'a list marker starts at the left edge')
    for ln in ls:
        cx.check(cx.close(ln.chars[0].x, 20 + evs[0].w, TOL), 'the list indent is the width of the marker')


def documents(cx):
    """the face in one document and in the next one"""
    fs = faces(cx)
    install(cx, fs)
    docs = []
    s = cx.real('s', 6, 20)
    for i in range(2):
        pdf = start(cx)
        pdf.text(content(TEXTS['mixed'], s))
        pdf.text(content(TEXTS['plain'], s))
        docs.append(draw(cx, pdf))
    cx.check(len(docs[0].pages) == len(docs[1].pages), 'a document built again is the same')
    for a, b in zip(docs[0].events, docs[1].events):
        same_events(cx, a, b, 'a document built again is the same')


def embedded(cx):
    """the font program and its descriptions go together"""
    weight = cx.choice('weight', [400, 700])
    without = cx.choice('without', [(), ('OS/2',), ('hhea',)])
    face = Face('Face-PS', glyphs(cx), cx.choice('upem', [1000, 2048]), weight=weight, without=without,
                version=cx.choice('version', [1, 4]), angle=cx.choice('angle', [0, -12]))
    missing = cx.bool('missing')
    install(cx, {'n': face})
    pdf = start(cx)
    pdf.text(content([('aZ\u0416b' if missing else 'ab', {})]))
    pdf.add_page()
    pdf.text(content([('ba', {})]))
    doc = draw(cx, pdf)
    evs = read(cx, doc, {'n': face})
    cx.check([e.codes for e in evs] == [[97, None, None, 98] if missing else [97, 98], [98, 97]], 'missing characters are shown as the missing glyph')
    f = evs[0].font
    if missing:
        cx.check(cx.close(evs[0].w, (face.width[97] + face.width[98] + 2 * face.notdef) * 10 / face.upem, TOL), 'characters have the widths of the font')
    cx.check(bytes(f.program) == face.program(), 'the font program is that of the file')
    cx.check(f.length == len(face.program()), 'the length of the font program is declared')
    cx.check(f.names == ['Face-PS'] * 3, 'an embedded font has the name of its file')
    cx.check(f.info == ['Adobe', 'Identity', 0], 'the glyphs are those of the font program')
    refs = [r for p in doc.pages for r in doc.file.get(doc.file.get(p['Resources'])['Font']).values()]
    refs = {r.n for r in refs if doc.file.get(r).get('Subtype') == 'Type0'}
    cx.check(len(refs) == 1, 'a font is embedded once')
