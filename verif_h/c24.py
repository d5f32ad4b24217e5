"""C24: compact style strings."""
from verif_o.draw import draw, same_events

PROPERTY = 'C24'
BUDGET = {'quick': 60, 'thorough': 600}
BOUNDS = {'attributes': 'every sequence of up to 2 (quick) / 3 (thorough) attributes of the eight, repeated or not',
          'all': 'all eight attributes in any rotation or its reverse, with one of them once more, one value symbolic',
          'values': 'any real size in [0, 500] and rise in [-2, 2], any gray / rgb components, names, hexadecimal codes',
          'spacing': 'any of 0..2 blanks on each side of one attribute name and one value'}
PATH_TIMEOUT = 60
ATTRS = ['b', 'i', 'u', 'f', 's', 'r', 'c', 'bg']


def configs(tier):
    k = 2 if tier == 'quick' else 3
    out = [('sequence', dict(n=1, first=a)) for a in ATTRS]
    out += [('sequence', dict(n=2, first=a)) for a in ATTRS]
    if k == 3:
        out += [('sequence', dict(n=3, first=a)) for a in ATTRS]
    out += [('all', dict(shift=s)) for s in range(8)]
    out += [('malformed', {})] + [('fragment', dict(attr=a, few=k == 2)) for a in ATTRS]
    return out


def same(cx, got, exp, P):
    cx.check(sorted(got.keys()) == sorted(exp.keys()), 'a style string sets exactly the attributes it names')
    for k, e in exp.items():
        g = got[k]
        if k in ('b', 'i', 'u'):
            cx.check(g is e, 'bold, italic and underline are true or false')
        elif k in ('s', 'r'):
            cx.check(cx.close(g, e, 0.0001), 'size and rise have their value')
        elif k == 'f':
            cx.check(g == e, 'the font family has its value')
        else:
            cx.check(isinstance(g, P), 'a color is a color')
            e = P(e)
            if e.color is None:
                cx.check(g.color is None, 'an empty color is no color')
            else:
                cx.check(g.color is not None and len(g.color) == len(e.color), 'a color has its components')
                for a, b in zip(g.color, e.color):
                    cx.check(cx.close(a, b, 0.0001), 'a color has its components')


def value(cx, attr, i, smax=500):
    """(text or None, value)"""
    if attr in ('b', 'i', 'u'):
        k = cx.choice('bool%d' % i, ['bare', 'one', 'zero'])
        return {'bare': (None, True), 'one': ('1', True), 'zero': ('0', False)}[k]
    if attr == 'f':
        f = cx.choice('font%d' % i, ['Helvetica', 'Times', 'Courier', 'Symbol'][:4 - 2 * i])
        return f, f
    if attr == 's':
        v = cx.real('s%d' % i, 0, smax)
        return str(v), v
    if attr == 'r':
        v = cx.real('r%d' % i, -2, 2)
        return str(v), v
    k = cx.choice('color%d' % i, ['gray', 'rgb', 'name', 'hex', 'none'] if i == 0 else ['rgb', 'none'])
    if k == 'none':
        return '', None
    if k == 'gray':
        v = cx.real('g%d' % i, 0, 1)
        return str(v), v
    if k == 'rgb':
        v = [cx.real('c%d_%d' % (i, j), 0, 1) for j in range(3)]
        return ' '.join([str(x) for x in v]), v
    if k == 'name':
        return 'red', 'red'
    return '#4080ff', '#4080ff'


def sequence(cx, n, first):
    utils, fonts = cx.mod('utils'), cx.mod('fonts').PDFFonts()
    P = cx.mod('color').PDFColor
    parts, exp = [], {}
    spaced = cx.choice('spaced', [-1, 0]) if n == 1 else (cx.int('spaced', 0, 1) == 1) - 1
    for i in range(n):
        attr = first if i == 0 else cx.choice('attr%d' % i, ATTRS)
        text, v = value(cx, attr, i)
        if spaced == 0:
            a, b = (' ' * cx.choice('before', [0, 2]), ' ' * cx.choice('after', [0, 1])) if n == 1 else (' ', '  ')
            part = a + attr + b
            if text is not None:
                part += ':' + b + text + a
        else:
            part = attr if text is None else attr + ':' + text
        parts.append(part)
        exp[attr] = v
    string = ';'.join(parts)
    if cx.bool('trailing') if n == 1 else n == 2 and first in 'bsc':
        string += ';'
    try:
        got = utils.parse_style_str(string, fonts)
    except Exception as ex:
        if type(ex).__module__.startswith('symx'):
            raise
        cx.fail('a well-formed style string is accepted', '%s: %s' % (type(ex).__name__, ex))
    same(cx, got, exp, P)


def all(cx, shift):
    """all attributes"""
    utils, fonts = cx.mod('utils'), cx.mod('fonts').PDFFonts()
    P = cx.mod('color').PDFColor
    order = ATTRS[shift:] + ATTRS[:shift]
    if cx.bool('reverse'):
        order = order[::-1]
    at = cx.choice('at', [0, 3, 7])
    again = cx.choice('again', [None, 0, 5])
    if again is not None:
        order.append(order[again])
    fixed = {'b': (None, True), 'i': ('0', False), 'u': ('1', True), 'f': ('Times', 'Times'), 's': ('7.5', 7.5),
             'r': ('-0.25', -0.25), 'c': ('0.5 0.25 1', [0.5, 0.25, 1]), 'bg': ('#4080ff', '#4080ff')}
    parts, exp = [], {}
    for i, attr in enumerate(order):
        text, v = value(cx, attr, 1) if i == at else fixed[attr]
        parts.append(attr if text is None else attr + ':' + text)
        exp[attr] = v
    try:
        got = utils.parse_style_str(';'.join(parts), fonts)
    except Exception as ex:
        if type(ex).__module__.startswith('symx'):
            raise
        cx.fail('a well-formed style string is accepted', '%s: %s' % (type(ex).__name__, ex))
    same(cx, got, exp, P)


def malformed(cx):
    utils, fonts = cx.mod('utils'), cx.mod('fonts').PDFFonts()
    bad = cx.choice('bad', ['s', 'c', 'f', 'r', 'bg', 'x', 'x:1', 'b:2', 'u:', 'i:true', 's:', 's:big', 'r:up', 'r:',
                            'f:NoSuchFont', 'f:', 'c:nosuchcolor', 'bg:#12', 'b:1:2', 's:1:2', 'bold', 'B', 'S:3', 'size:3'])
    before = cx.choice('before', ['', 'b;', 's:3;', 'c:red;'])
    after = cx.choice('after', ['', ';i', ';r:0.5'])
    try:
        utils.parse_style_str(before + bad + after, fonts)
    except (ValueError, TypeError):
        cx.check(True, 'rejected')
        return
    cx.fail('a malformed attribute is rejected', bad)


def fragment(cx, attr, few):
    """the same style as key of a fragment and as dictionary draws the same text"""
    pdf1, pdf2 = cx.mod('pdf').PDF(), cx.mod('pdf').PDF()
    text, v = value(cx, attr, 0, 60)
    other = cx.choice('attr', ['u', 's', 'bg'] if few else ATTRS)
    text2, v2 = value(cx, other, 1, 60)
    string = '.' + attr + ('' if text is None else ':' + text) + ';' + other + ('' if text2 is None else ':' + text2)
    style = {attr: v}
    style[other] = v2
    cx.assume(style.get('c', 0) is not None)
    for p in (pdf1, pdf2):
        p.add_page()
    pdf1.text({'.': ['pre ', {string: 'inside'}, ' post']})
    pdf2.text({'.': ['pre ', {'.': 'inside', 'style': style}, ' post']})
    same_events(cx, draw(cx, pdf1).events[0], draw(cx, pdf2).events[0], 'string and dictionary style draw the same')
