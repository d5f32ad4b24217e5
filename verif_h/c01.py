"""C01: string objects survive the round trip through PDF syntax."""
from verif_o.pdfread import parse_one, PStr, ReadError

PROPERTY = 'C01'
BUDGET = {'quick': 90, 'thorough': 900}
BOUNDS = {'strings': 'every Latin-1 string of up to 3 (quick) / 5 (thorough) characters, all symbolic',
          'long strings': 'two symbolic characters at the start, in the middle or at the end of fixed text of up to 2000 (quick) / 70000 (thorough) characters of 5 kinds (letters, all 256 characters, brackets nested and unbalanced, backslashes, line ends), alone and in a dictionary or list'}

FILL = {'letters': 'abcdefghij', 'all': ''.join(map(chr, range(256))), 'nested': '(()())', 'open': '((', 'close': ')', 'slash': '\\', 'lines': 'a\r\nb\rc\n\r'}
LENGTHS = [6, 16, 31, 63, 64, 99, 126, 127, 128, 200, 253, 254, 255, 256, 257, 510, 511, 512, 1000, 1023, 1024, 2000]
LONGER = [4000, 4095, 4096, 8192, 16384, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 70000]


def configs(tier):
    n = 3 if tier == 'quick' else 5
    out = [('strings', dict(n=k)) for k in range(0, n + 1)]
    out += [('long', dict(fill=f, lengths=LENGTHS)) for f in FILL]
    out += [('inside', dict(lengths=[0, 1, 60, 127, 255, 300]))]
    if tier == 'thorough':
        out += [('long', dict(fill=f, lengths=LONGER)) for f in FILL]
    return out


def judge(cx, s, out):
    cx.observe('out', out)
    try:
        v = parse_one(cx, out)
    except ReadError as e:
        cx.fail('the text of a string object does not parse', e)
    cx.check(isinstance(v, PStr), 'a string must be written as a string object')
    cx.check(cx.eqcodes(v.codes, cx.units(s)), 'a reader must get the string back unchanged')


def strings(cx, n):
    s = cx.str('s', n, [(0, 255)])
    judge(cx, s, cx.mod('parser').parse_obj(s))


def text(fill, n):
    t = FILL[fill]
    return (t * (n // len(t) + 1))[:n]


def long(cx, fill, lengths):
    n = cx.choice('length', lengths)
    t = text(fill, n)
    at = cx.choice('at', [0, n // 2, n])
    s = t[:at] + cx.str('s', 2, [(0, 255)]) + t[at:]
    judge(cx, s, cx.mod('parser').parse_obj(s))


def inside(cx, lengths):
    """a string next to others in a list and a dictionary"""
    n = cx.choice('length', lengths)
    t = text('letters', n)
    s = t + cx.str('s', 1, [(0, 255)])
    u = cx.str('u', 1, [(0, 255)]) + t
    k = cx.choice('kind', ['list', 'dict'])
    out = cx.mod('parser').parse_obj([s, u] if k == 'list' else {'A': s, 'B': u})
    try:
        v = parse_one(cx, out)
    except ReadError as e:
        cx.fail('the text of strings in a %s does not parse' % k, e)
    cx.check(isinstance(v, list if k == 'list' else dict) and len(v) == 2, 'two strings stay two')
    for got, s1 in zip(v if k == 'list' else (v.get('A'), v.get('B')), (s, u)):
        cx.check(isinstance(got, PStr), 'a string must be written as a string object')
        cx.check(cx.eqcodes(got.codes, cx.units(s1)), 'a reader must get the string back unchanged')
