"""Paragraphs: what was asked for against what is drawn."""
from verif_o.content import Interp, METRICS, std_font
from verif_o.pdfread import ReadError

BASE = {(m['family'], m['mode']): b for b, m in METRICS.items()}


class Ch:
    """a drawn character"""
    __slots__ = ('code', 'x', 'w', 'ev', 'line', 'style')

    def __init__(self, code, x, w, ev, line):
        self.code, self.x, self.w, self.ev, self.line = code, x, w, ev, line
        self.style = None


class Line:
    def __init__(self, y):
        self.y = y
        self.chars = []

    def visible(self):
        cs = list(self.chars)
        while cs and cs[-1].code == 32:
            cs.pop()
        return cs

    def left(self):
        return self.chars[0].x

    def right(self):
        """right end of the last character that is not a space"""
        c = self.visible()[-1]
        return c.x + c.w

    def size(self):
        """largest font size"""
        out = self.chars[0].ev.size
        for c in self.chars:
            if c.ev.size is not out and c.ev.size > out:
                out = c.ev.size
        return out


def lines_of(cx, events, gap=None):
    """text events -> lines, by base line; a distance of more than gap
    between two texts starts a new one (columns, cells)"""
    out = []
    end = None
    for e in events:
        if e.kind != 'text' or not e.codes:
            continue
        if not out or not (out[-1].y is e.y or same(cx, out[-1].y, e.y)) or (gap is not None and bool(e.x - end > gap)):
            out.append(Line(e.y))
        ln = out[-1]
        end = e.x + e.w
        for i, c in enumerate(e.codes):
            stop = e.adv[i + 1] if i + 1 < len(e.adv) else e.w
            ln.chars.append(Ch(c, e.x + e.adv[i], stop - e.adv[i], e, ln))
    return out


def same(cx, a, b):
    d = a - b
    return bool(d <= 0.01) and bool(d >= -0.01)


def spaces(text_codes):
    return text_codes == 32


def tokens(cx, frags):
    """[(text, style)] -> the characters to be drawn: (code, style), ' ' for
    a run of white space, '\\n' for a line break"""
    out = []
    for text, style in frags:
        for c in cx.units(text):
            if c == 10:
                if out and out[-1][0] == ' ':
                    out.pop()
                out.append(('\n', style))
            elif c == 32:
                if out and out[-1][0] not in (' ', '\n'):
                    out.append((' ', style))
            else:
                out.append((c, style))
    return out


class Lost(Exception):
    pass


def match(cx, lines, toks, start=0, partial=False):
    """walks the drawn lines along the tokens: every token is drawn, in order,
    except white space at line ends.  Returns the next token."""
    k = start
    n = len(toks)
    for ln in lines:
        first = True
        for ch in ln.chars:
            if first:
                first = False
                # white space and line breaks before a line
                br = k == 0 or k == start
                while k < n and toks[k][0] in (' ', '\n'):
                    if toks[k][0] == ' ' and ch.code == 32:
                        break
                    br = True
                    k += 1
                cx.check(br or (k < n and toks[k][0] == ' '), 'lines are broken at white space')
            if k >= n:
                # a space that ends the paragraph
                cx.check(ch.code == 32, 'no character is drawn that was not given')
                continue
            t, style = toks[k]
            if t == '\n':
                cx.check(ch.code == 32, 'a line break ends the line')
                continue
            if t == ' ':
                cx.check(ch.code == 32, 'no space is lost inside a line')
            else:
                cx.check(ch.code == t, 'the characters are drawn as given')
            ch.style = style
            k += 1
    if partial:
        return k
    while k < n and toks[k][0] in (' ', '\n'):
        k += 1
    cx.check(k == n, 'no character is lost')
    return k


def fontmap(cx, pdf):
    """resource name -> metrics, for streams that are read on their own"""
    out = {}
    for (family, mode), base in BASE.items():
        out[pdf.fonts.get_font(family, mode).ref] = std_font(base)
    return out


def read_stream(cx, pdf, stream):
    try:
        return Interp(cx, cx.units(stream), fontmap(cx, pdf)).run()
    except ReadError as ex:
        cx.fail('the stream of the paragraph cannot be read: %s' % ex)


def color_of(c):
    if isinstance(c, (list, tuple)):
        return ('rgb', list(c))
    if c == 'black':
        return ('g', [0])
    return ('g', [c])


def same_color(cx, got, want):
    gk, gv = got
    wk, wv = want
    if gk != wk:
        # a gray written with three components, or the other way round
        if gk == 'g':
            gv = [gv[0]] * 3
        if wk == 'g':
            wv = [wv[0]] * 3
    return len(gv) == len(wv) and cx.And(*[cx.close(a, b, 0.002) for a, b in zip(gv, wv)])


def check_style(cx, ch, defaults):
    """the character is shown in the style asked for"""
    st = dict(defaults)
    st.update(ch.style or {})
    e = ch.ev
    mode = ('b' if st.get('b') else '') + ('i' if st.get('i') else '')
    fam = st['f']
    base = BASE.get((fam, mode or 'n'), BASE.get((fam, 'n')))
    cx.check(e.font.base == base, 'text is shown in its own font')
    cx.check(cx.close(e.size, st['s'], 0.002), 'text is shown in its own size')
    cx.check(same_color(cx, e.color, color_of(st['c'])), 'text is shown in its own color')
    cx.check(cx.close(e.rise, st['r'] * st['s'], 0.002), 'text is shown with its own rise')
