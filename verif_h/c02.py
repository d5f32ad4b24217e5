"""C02: Python values survive the round trip through PDF syntax."""
from verif_o.pdfread import parse_one, PStr, Name, PName, Ref, ReadError

PROPERTY = 'C02'
BUDGET = {'quick': 90, 'thorough': 900}
BOUNDS = {'numbers': 'any integer / real of magnitude up to 1e12 (integers) and 1e9 (reals)',
          'containers': 'dictionaries and arrays up to depth 2 (quick) / 3 (thorough), up to 3 entries per level, every combination of value kinds',
          'long and deep': 'lists and dictionaries of 5 to 1100 (thorough: 4200) entries with two symbolic ones; up to 12 levels; symbolic keys of 1 to 3 regular characters',
          'strings inside containers': '1 symbolic Latin-1 character (3 at top level)',
          'names': 'concrete names'}
REFS = [1, 7, 10, 12, 99, 100, 255, 256, 999, 1000, 4096, 9999, 10000, 32767, 65535, 65536, 99999, 100000, 999999, 8388607, 8388608]
KINDS = ['int', 'real', 'bool', 'str', 'name', 'ref', 'empty', 'list', 'dict']
PATH_TIMEOUT = 30


def configs(tier):
    out = [('scalar', dict(kind=k)) for k in KINDS[:7]]
    out += [('container', dict(outer=o, n=n, depth=1)) for o in ('list', 'tuple', 'dict') for n in (1, 2)]
    out += [('container', dict(outer=o, n=1, depth=2)) for o in ('list', 'dict')]
    out += [('indirect', dict(n=1)), ('long', dict(outer='list')), ('long', dict(outer='dict')), ('long', dict(outer='list', most=1)), ('long', dict(outer='dict', most=1)), ('deep', {}), ('keys', {})]
    if tier == 'thorough':
        out += [('container', dict(outer=o, n=2, depth=2)) for o in ('list', 'dict')]
        out += [('indirect', dict(n=2)), ('long', dict(outer='list', most=2)), ('long', dict(outer='dict', most=2))]
        out += [('container', dict(outer=o, n=3, depth=1)) for o in ('list', 'tuple', 'dict')]
        out += [('container', dict(outer=o, n=2, depth=3)) for o in ('list', 'dict')]
    return out


def value(cx, name, kind, depth, wide=False):
    """(Python value, expectation)"""
    if kind == 'int':
        v = cx.int(name, -10**12, 10**12)
        return v, v
    if kind == 'real':
        v = cx.real(name, -10**9, 10**9)
        return v, v
    if kind == 'bool':
        v = cx.bool(name)
        return v, v
    if kind == 'str':
        v = cx.str(name, 3 if wide else 1, [(0, 255)])
        return v, ('str', v)
    if kind == 'name':
        v = cx.choice(name, [b'/Page', b'/XYZ', b'/A'] if wide else [b'/XYZ'])
        return v, ('name', v[1:].decode())
    if kind == 'ref':
        n = cx.choice(name, REFS if wide else [7])
        return cx.mod('parser').PDFRef(n), ('ref', n)
    if kind == 'empty':
        v = cx.choice(name, [[], {}, (), ''] if wide else [[], {}])
        return v, (('str', '') if v == '' else ({} if isinstance(v, dict) else []))
    return compound(cx, name, kind, 2, depth - 1)


def compound(cx, name, kind, n, depth):
    kinds = ['int', 'real', 'bool', 'str', 'name', 'ref', 'empty']
    if depth > 0:
        kinds = kinds[:1] + ['name', 'str', 'list', 'dict']
    vals, exps = [], []
    for i in range(n):
        k = cx.choice('%s.k%d' % (name, i), kinds)
        v, e = value(cx, '%s.%d' % (name, i), k, depth)
        vals.append(v)
        exps.append(e)
    if kind == 'list':
        return vals, exps
    if kind == 'tuple':
        return tuple(vals), exps
    keys = ['Type', 'Kids', 'A1'][:n]
    return dict(zip(keys, vals)), dict(zip(keys, exps))


def same(cx, got, exp, where):
    if isinstance(exp, tuple):
        if exp[0] == 'str':
            cx.check(isinstance(got, PStr), 'a str reads back as a string', where)
            cx.check(cx.eqcodes(got.codes, cx.units(exp[1])), 'a string reads back unchanged', where)
        elif exp[0] == 'name':
            cx.check(isinstance(got, Name) and str(got) == exp[1], 'a name reads back unchanged', where)
        else:
            cx.check(isinstance(got, Ref), 'a reference reads back as a reference', where)
            cx.check(cx.And(got.n == exp[1], got.g == 0), 'a reference reads back unchanged', where)
    elif isinstance(exp, dict):
        cx.check(isinstance(got, dict), 'a dict reads back as a dictionary', where)
        cx.check(sorted(got.keys()) == sorted(exp.keys()), 'a dictionary keeps its keys', where)
        for k in exp:
            same(cx, got[k], exp[k], where + '/' + k)
    elif isinstance(exp, list):
        cx.check(isinstance(got, list), 'a sequence reads back as an array', where)
        cx.check(len(got) == len(exp), 'an array keeps its length', where)
        for i in range(len(exp)):
            same(cx, got[i], exp[i], '%s/%d' % (where, i))
    elif isinstance(exp, bool):
        cx.check(isinstance(got, bool), 'a bool reads back as a boolean', where)
        cx.check(got == exp, 'a boolean reads back unchanged', where)
    else:
        cx.check(isinstance(got, (int, float)) and not isinstance(got, bool), 'a number reads back as a number', where)
        if isinstance(exp, int):
            cx.check(got == exp, 'an integer reads back unchanged', where)
        else:
            cx.check(cx.close(got, exp, 1e-9), 'a real reads back unchanged', where)


def judge(cx, v, e):
    out = cx.mod('parser').parse_obj(v)
    cx.observe('out', out if not cx.sym else 'x') if False else None
    try:
        got = parse_one(cx, out)
    except ReadError as ex:
        cx.fail('the text of a value does not parse', ex)
    same(cx, got, e, '')


def scalar(cx, kind):
    v, e = value(cx, 'v', kind, 0, True)
    judge(cx, v, e)


def container(cx, outer, n, depth):
    v, e = compound(cx, 'v', outer, n, depth - 1)
    judge(cx, v, e)


def indirect(cx, n):
    """objects added to a document are written by reference and by value"""
    base = cx.mod('base').PDFBase()
    objs = []
    for i in range(n):
        k = cx.choice('k%d' % i, ['int', 'str', 'dict'])
        v, e = value(cx, 'o%d' % i, k, 1)
        objs.append((base.add(v), e))
    for o, e in objs:
        out = cx.mod('parser').parse_obj(o)
        try:
            got = parse_one(cx, out)
        except ReadError as ex:
            cx.fail('the text of a value does not parse', ex)
        same(cx, got, e, '')
        r = parse_one(cx, cx.mod('parser').parse_obj([o.id]))
        cx.check(isinstance(r[0], Ref) and bool(r[0].n == o.id), 'the id of an object is its reference')


def long(cx, outer, most=0):
    """long containers: two symbolic values among many fixed ones of all kinds"""
    PDFRef = cx.mod('parser').PDFRef
    n = cx.choice('n', [260, 1100] if most == 1 else [4200]) if most else cx.choice('n', [5, 9, 40, 130])
    back = cx.choice('back', [1, 5]) if most else 0
    fixed = [(3, 3), (-2.5, -2.5), (True, True), ('s)', ('str', 's)')), (b'/N', ('name', 'N')), (PDFRef(4), ('ref', 4)),
             ([], []), ({}, {}), ('s)', ('str', 's)')), (0, 0), (False, False), ((1, b'/B'), [1, ('name', 'B')])]
    pairs = [fixed[(i - i // len(fixed) * back) % len(fixed)] for i in range(n)]
    i = cx.choice('i', [0] if most else [0, 1, 3])
    j = cx.choice('j', [n - 1] if most else [4, n - 1])
    pairs[i] = value(cx, 'a', cx.choice('ka', ['int', 'str']) if not most else 'int', 0)
    pairs[j] = value(cx, 'b', cx.choice('kb', ['int', 'real', 'bool', 'str'] if not most else ['real', 'str']), 0)
    if outer == 'list':
        judge(cx, [v for v, e in pairs], [e for v, e in pairs])
    else:
        judge(cx, dict(('K%d' % q, v) for q, (v, e) in enumerate(pairs)), dict(('K%d' % q, e) for q, (v, e) in enumerate(pairs)))


def deep(cx):
    """containers many levels deep"""
    n = cx.choice('n', [4, 6, 12])
    v, e = value(cx, 'v', cx.choice('kind', ['int', 'real', 'bool', 'str', 'name', 'ref', 'empty']), 0)
    shape = cx.choice('shape', [0, 1])
    for i in range(n):
        k = (i + shape) % 3
        if k == 0:
            v, e = [v, i], [e, i]
        elif k == 1:
            v, e = {'A': v, 'B': b'/X'}, {'A': e, 'B': ('name', 'X')}
        else:
            v, e = (i, v), [i, e]
    judge(cx, v, e)


def keys(cx):
    """the names of dictionary entries, as far as they are written plainly"""
    k = cx.str('key', cx.choice('n', [1, 2, 3]), [(48, 57), (65, 90), (97, 122), (45, 46), (95, 95), (43, 43)])
    x, ex = value(cx, 'x', cx.choice('kind', ['int', 'str', 'name', 'bool']), 0)
    before = cx.bool('before')
    d = {'Type': b'/T', k: x} if before else {k: x, 'Type': b'/T'}
    try:
        got = parse_one(cx, cx.mod('parser').parse_obj(d))
    except ReadError as err:
        cx.fail('the text of a value does not parse', err)
    cx.check(isinstance(got, dict) and len(got) == 2, 'a dict reads back as a dictionary')
    for name, y in got.items():
        if isinstance(name, str) and name == 'Type':
            cx.check(y == 'T', 'an entry keeps its value')
        else:
            cx.check(cx.eqcodes(cx.units(name.t if isinstance(name, PName) else str(name)), cx.units(k)), 'an entry keeps its name')
            same(cx, y, ex, '')
