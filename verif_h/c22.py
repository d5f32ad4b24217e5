"""C22: colors."""
import json
import os
import verif_o
from verif_o.content import Interp, Ev
from verif_o.pdfread import ReadError

PROPERTY = 'C22'
BUDGET = {'quick': 60, 'thorough': 300}
BOUNDS = {'components': 'any real in [0, 1]', 'hexadecimal': 'all 3 and 4 digit codes, both cases; 6 and 8 digit codes: every pair of adjacent digits symbolic (quick), all codes (thorough)',
          'names': 'all color names of the baseline'}
PATH_TIMEOUT = 30
with open(os.path.join(os.path.dirname(os.path.abspath(verif_o.__file__)), 'colors.json')) as _f:
    NAMES = json.load(_f)
HEX = '0123456789abcdefABCDEF'


def configs(tier):
    hx = [('hexa', dict(n=6, at=a)) for a in range(5)] if tier == 'quick' else [('hexa', dict(n=6))]
    out = [('gray', {}), ('components', {}), ('text', {}), ('hexa', dict(n=3)), ('hexa', dict(n=4)), ('hexa', dict(n=8, at=0)), ('hexa', dict(n=8, at=6)), ('hexa', dict(n=8, at=5))] + hx + [
           ('badhex', dict(n=3)), ('equal', {}), ('nocolor', {})]
    names = sorted(NAMES)
    k = 10
    out += [('names', dict(part=i, k=k)) for i in range(k)]
    return out


def ops(cx, color, stroke):
    """color set by the operator text of a PDFColor, read from a stream"""
    c = cx.mod('color').PDFColor(color, stroke)
    try:
        text = str(c)
        draw = ' 0 0 m 1 1 l S' if stroke else ' 0 0 1 1 re f'
        ev = Interp(cx, cx.units(text + draw)).run()
    except ReadError as ex:
        cx.fail('a color is no valid operator: %s' % ex)
    cx.check(len(ev) == 1, 'a color draws nothing')
    return ev[0].color, c


def judge(cx, color, exp, stroke=None):
    if stroke is None:
        stroke = cx.bool('stroke')
    (kind, vals), c = ops(cx, color, stroke)
    cx.observe('vals', vals)
    if len(vals) == 1 and len(exp) == 3:
        vals = vals * 3
    if len(exp) == 1 and len(vals) == 3:
        exp = exp * 3
    cx.check(len(vals) == len(exp), 'a color keeps its number of components')
    for v, e in zip(vals, exp):
        cx.check(cx.close(v, e, 0.001), 'a color has the components it was given')
        cx.check(cx.And(cx.le(0, v, 0.001), cx.le(v, 1, 0.001)), 'color components lie between 0 and 1')
    return c


def gray(cx):
    v = cx.real('v', 0, 1)
    form = cx.choice('form', ['number', 'list', 'tuple', 'again'])
    x = {'number': v, 'list': [v], 'tuple': (v,), 'again': v}[form]
    if form == 'again':
        x = cx.mod('color').PDFColor(v, cx.bool('was'))
    judge(cx, x, [v])


def components(cx):
    v = [cx.real('v%d' % i, 0, 1) for i in range(3)]
    form = cx.choice('form', ['list', 'tuple', 'again'])
    x = {'list': list(v), 'tuple': tuple(v), 'again': None}[form]
    if form == 'again':
        x = cx.mod('color').PDFColor(list(v))
    judge(cx, x, v)


def text(cx):
    n = cx.choice('n', [1, 3])
    sep = cx.choice('sep', [' ', ','])
    v = [cx.real('v%d' % i, 0, 1) for i in range(n)]
    s = sep.join([str(x) for x in v])
    judge(cx, s, v)


def hexval(cx, c):
    if c < 58:
        return c - 48
    if c < 71:
        return c - 55
    return c - 87


def hexa(cx, n, at=None):
    if at is None:
        s = cx.str('hex', n, HEX)
    else:
        s = '1c9E7b35'[:n][:at] + cx.str('hex', 2, HEX) + '1c9E7b35'[:n][at + 2:]
    d = [hexval(cx, c) for c in cx.units(s)]
    # the alpha digits, if any, mean nothing
    if n < 5:
        exp = [x * 17 / 255 for x in d[:3]]
    else:
        exp = [(d[k] * 16 + d[k + 1]) / 255 for k in (0, 2, 4)]
    judge(cx, '#' + s, exp, False)


def badhex(cx, n):
    """a code with a digit that is none is rejected"""
    pos = cx.choice('pos', list(range(n)))
    s = cx.str('hex', n, '09afAFgxzGZ')
    bad = cx.str('bad', 1, 'ghkxzGXZ')
    s = '#' + s[:pos] + bad + s[pos + 1:]
    try:
        cx.mod('color').PDFColor(s)
    except (TypeError, ValueError):
        cx.check(True, 'rejected')
        return
    cx.fail('a malformed hexadecimal color is rejected')


def names(cx, part, k):
    ns = sorted(NAMES)[part::k]
    n = cx.choice('name', ns)
    judge(cx, n, NAMES[n], False)
    v = NAMES[n]
    a = cx.mod('color').PDFColor(n)
    b = cx.mod('color').PDFColor(list(v))
    cx.check(a == b, 'a name and its components are the same color')


def equal(cx):
    """equality of colors is equality of components and use"""
    P = cx.mod('color').PDFColor
    v = [cx.real('v%d' % i, 0, 1) for i in range(3)]
    w = [cx.real('w%d' % i, 0, 1) for i in range(3)]
    s, t = cx.bool('s'), cx.bool('t')
    a, b = P(list(v), s), P(list(w), t)
    same = cx.And(v[0] == w[0], v[1] == w[1], v[2] == w[2], s == t)
    if a == b:
        cx.check(same, 'only the same color compares equal')
    else:
        cx.check(cx.Not(same), 'the same color compares equal')
    c = P(a, s)
    cx.check(a == c, 'a color made from a color is equal to it')
    cx.check(P('#ff8000') == P([1.0, 128 / 255, 0.0]), 'notations of the same color are equal')
    cx.check(P('#f80') == P('#ff8800'), 'short and long hexadecimal codes agree')


def nocolor(cx):
    P = cx.mod('color').PDFColor
    x = cx.choice('x', [None, ''])
    c = P(x)
    cx.check(str(c) == '', 'no color sets no color')
    cx.check(c == None, 'no color compares equal to None')   # noqa: E711
    bad = cx.choice('bad', ['nosuchcolor', {}, ['x'], 'a b c', object()])
    try:
        P(bad)
    except (TypeError, ValueError):
        cx.check(True, 'rejected')
        return
    cx.fail('a value that is no color is rejected')
