"""Regular expressions over symbolic strings: a backtracking matcher on the
parse tree of the pattern, forking on the tests of symbolic characters."""
import re
try:
    from re import _parser as P, _constants as C
except ImportError:                                   # pragma: no cover
    import sre_parse as P
    import sre_constants as C

from . import core
from . import values as V
from .values import SNum, SChar, Chunk, s_or, s_and, s_not
from .seq import SStr, SBytes, WS, BWS, between, oneof

SYMSEQ = (SStr, SBytes)
_CACHE = {}


def parsed(pattern, flags=0):
    if isinstance(pattern, re.Pattern):
        flags |= pattern.flags & ~re.UNICODE
        pattern = pattern.pattern
    if type(pattern) in SYMSEQ:
        pattern = pattern.concretise()
    k = (pattern, flags)
    r = _CACHE.get(k)
    if r is None:
        r = _CACHE[k] = (P.parse(pattern, flags), flags, isinstance(pattern, bytes))
    return r


class M:
    """the match object"""

    def __init__(self, s, us, cls, groups, start, end, names):
        self.string = s
        self.us, self.cls, self._g = us, cls, groups
        self._s, self._e = start, end
        self.names = names

    def _span(self, g):
        if isinstance(g, str):
            g = self.names[g]
        if g == 0:
            return (self._s, self._e)
        return self._g.get(g, (-1, -1))

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            a, b = self._span(g)
            r.append(None if a < 0 else self.cls.build(self.us[a:b]))
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        n = self.ngroups
        return tuple(self.group(i) if self._span(i)[0] >= 0 else default for i in range(1, n + 1))

    def groupdict(self, default=None):
        return {n: self.group(i) if self._span(i)[0] >= 0 else default for n, i in self.names.items()}

    def start(self, g=0): return self._span(g)[0]
    def end(self, g=0): return self._span(g)[1]
    def span(self, g=0): return self._span(g)
    def __bool__(self): return True


def cat_test(cat, c, isb):
    n = str(cat)
    neg = 'NOT' in n
    if type(c) is not SNum:
        ch = chr(c)
        if 'DIGIT' in n:
            r = ch.isdigit()
        elif 'SPACE' in n:
            r = ch.isspace() if not isb else c in BWS
        else:
            r = ch.isalnum() or ch == '_'
        return r != neg
    if 'DIGIT' in n:
        r = between(c, 48, 57)
    elif 'SPACE' in n:
        r = oneof(c, BWS if isb else WS)
    else:
        r = s_or(between(c, 48, 57), between(c, 65, 90), between(c, 97, 122), c == 95)
    return s_not(r) if neg else r


def num_chunk_in(op, av):
    """does a character test possibly accept characters of a number text?"""
    return True


def test_in(items, c, isb):
    neg = False
    conds = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            conds.append(c == av)
        elif op is C.RANGE:
            conds.append(between(c, av[0], av[1]) if type(c) is SNum else av[0] <= c <= av[1])
        elif op is C.CATEGORY:
            conds.append(cat_test(av, c, isb))
    r = s_or(*conds)
    return s_not(r) if neg else r


def unit_test(op, av, u, cls, flags, isb):
    if type(u) is Chunk:
        # a number text: all of its characters answer alike for the tests
        # the code uses, or it is expanded by the caller
        rs = {bool(unit_test(op, av, x, cls, flags, isb)) for x in
              ('0', '5', '.', '-') if True} if not isb else \
             {bool(unit_test(op, av, x, cls, flags, isb)) for x in (b'0', b'5', b'.', b'-')}
        if len(rs) == 1:
            return rs.pop()
        raise NeedExpand()
    c = cls.code(u)
    if op is C.LITERAL:
        return c == av
    if op is C.NOT_LITERAL:
        return s_not(c == av)
    if op is C.ANY:
        return True if flags & re.S else s_not(c == 10)
    if op is C.IN:
        return test_in(av, c, isb)
    raise NotImplementedError(op)


class NeedExpand(Exception):
    pass


def m_seq(nodes, k, us, i, g, cls, flags, isb, cont):
    """match nodes[k:] at i, then cont(i, g)"""
    if k == len(nodes):
        return cont(i, g)
    op, av = nodes[k]

    def nxt(j, g2):
        return m_seq(nodes, k + 1, us, j, g2, cls, flags, isb, cont)

    if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
        if i < len(us) and bool(unit_test(op, av, us[i], cls, flags, isb)):
            return nxt(i + 1, g)
        return None
    if op is C.SUBPATTERN:
        gid, add, dele, p = av

        def done(j, g2):
            if gid is not None:
                g2 = dict(g2)
                g2[gid] = (i, j)
            return nxt(j, g2)
        return m_seq(list(p), 0, us, i, g, cls, flags, isb, done)
    if op is C.BRANCH:
        for alt in av[1]:
            r = m_seq(list(alt), 0, us, i, g, cls, flags, isb, nxt)
            if r is not None:
                return r
        return None
    if op in (C.MAX_REPEAT, C.MIN_REPEAT) or op is getattr(C, 'POSSESSIVE_REPEAT', None):
        lo, hi, p = av
        p = list(p)
        hi = len(us) + 1 if hi is C.MAXREPEAT else hi
        if op is C.MAX_REPEAT and len(p) == 1 and p[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            j = i
            n = 0
            while n < hi and j < len(us) and bool(unit_test(p[0][0], p[0][1], us[j], cls, flags, isb)):
                j += 1
                n += 1
            while n >= lo:
                r = nxt(j, g)
                if r is not None:
                    return r
                j -= 1
                n -= 1
            return None

        def rep(n, j, g2, prev):
            if op is C.MIN_REPEAT:
                if n >= lo:
                    r = nxt(j, g2)
                    if r is not None:
                        return r
                if n < hi:
                    return m_seq(p, 0, us, j, g2, cls, flags, isb,
                                 lambda j2, g3: rep(n + 1, j2, g3, j) if j2 > j or n < lo else None)
                return None
            if n < hi:
                r = m_seq(p, 0, us, j, g2, cls, flags, isb,
                          lambda j2, g3: rep(n + 1, j2, g3, j) if j2 > j else None)
                if r is not None:
                    return r
            if n >= lo:
                return nxt(j, g2)
            return None
        return rep(0, i, g, -1)
    if op is C.AT:
        n = str(av)
        if 'BEGINNING' in n:
            if i == 0:
                return nxt(i, g)
            if flags & re.M and 'STRING' not in n and bool(cls.code(us[i - 1]) == 10):
                return nxt(i, g)
            return None
        if 'END' in n:
            if i == len(us):
                return nxt(i, g)
            if 'STRING' not in n and i == len(us) - 1 and type(us[i]) is not Chunk and bool(cls.code(us[i]) == 10):
                return nxt(i, g)
            if flags & re.M and type(us[i]) is not Chunk and bool(cls.code(us[i]) == 10):
                return nxt(i, g)
            return None
        raise NotImplementedError(n)
    if op in (C.ASSERT, C.ASSERT_NOT):
        d, p = av
        if d < 0:
            lo, hi = p.getwidth()
            r = None
            if lo == hi and i - lo >= 0:
                r = m_seq(list(p), 0, us, i - lo, g, cls, flags, isb, lambda j, g2: (j, g2))
        else:
            r = m_seq(list(p), 0, us, i, g, cls, flags, isb, lambda j, g2: (j, g2))
        if (r is not None) == (op is C.ASSERT):
            return nxt(i, g)
        return None
    if op is C.GROUPREF:
        a, b = g.get(av, (-1, -1))
        if a < 0:
            return None
        from .seq import unit_eq
        for t in range(b - a):
            if i + t >= len(us) or not unit_eq(us[i + t], us[a + t]):
                return None
        return nxt(i + b - a, g)
    raise NotImplementedError(str(op))


def match_at(pat, s, us, cls, i, full=False):
    tree, flags, isb = pat
    isb = cls is SBytes
    n = len(us)

    def fin(j, g):
        if full and j != n:
            return None
        return (j, g)
    r = m_seq(list(tree), 0, us, i, {}, cls, flags | tree.state.flags, isb, fin)
    if r is None:
        return None
    m = M(s, us, cls, r[1], i, r[0], tree.state.groupdict)
    m.ngroups = tree.state.groups - 1
    return m


def _prep(s):
    if isinstance(s, str):
        return SStr.lift(s), SStr
    return SBytes.lift(s), SBytes


def _with_expand(fn):
    def run(pattern, *a, **k):
        try:
            return fn(pattern, *a, **k)
        except NeedExpand:
            a = [x.expand() if type(x) in SYMSEQ else x for x in a]
            return fn(pattern, *a, **k)
        except NotImplementedError as e:
            core.ENGINE.stats.note('regular expression construct %s: subject fixed to one value' % e)
            f = getattr(re, fn.__name__)
            a = [x.concretise() if type(x) in SYMSEQ else x for x in a]
            return f(pattern, *a, **k)
    run.__name__ = fn.__name__
    return run


@_with_expand
def match(pattern, s, flags=0):
    s, cls = _prep(s)
    return match_at(parsed(pattern, flags), s, s.units(), cls, 0)


@_with_expand
def fullmatch(pattern, s, flags=0):
    s, cls = _prep(s)
    return match_at(parsed(pattern, flags), s, s.units(), cls, 0, True)


@_with_expand
def search(pattern, s, flags=0):
    s, cls = _prep(s)
    us = s.units()
    p = parsed(pattern, flags)
    for i in range(len(us) + 1):
        m = match_at(p, s, us, cls, i)
        if m is not None:
            return m
    return None


def _iter(p, s, cls):
    us = s.units()
    i = 0
    while i <= len(us):
        m = match_at(p, s, us, cls, i)
        if m is None:
            i += 1
            continue
        yield m
        if m._e == m._s:
            i = m._e + 1
        else:
            i = m._e


@_with_expand
def finditer(pattern, s, flags=0):
    s, cls = _prep(s)
    return iter(list(_iter(parsed(pattern, flags), s, cls)))


@_with_expand
def findall(pattern, s, flags=0):
    s, cls = _prep(s)
    out = []
    for m in _iter(parsed(pattern, flags), s, cls):
        if m.ngroups == 0:
            out.append(m.group())
        elif m.ngroups == 1:
            g = m.group(1)
            out.append(cls.EMPTY if g is None else g)
        else:
            out.append(tuple(cls.EMPTY if x is None else x for x in m.groups()))
    return out


@_with_expand
def split(pattern, s, maxsplit=0, flags=0):
    s, cls = _prep(s)
    us = s.units()
    out = []
    last = 0
    for m in _iter(parsed(pattern, flags), s, cls):
        if maxsplit and len(out) >= maxsplit:
            break
        out.append(cls.build(us[last:m._s]))
        out.extend(m.groups())
        last = m._e
    out.append(cls.build(us[last:]))
    return out


@_with_expand
def sub(pattern, repl, s, count=0, flags=0):
    s, cls = _prep(s)
    us = s.units()
    out = []
    last = 0
    n = 0
    for m in _iter(parsed(pattern, flags), s, cls):
        if count and n >= count:
            break
        n += 1
        out.append(cls.build(us[last:m._s]))
        if callable(repl):
            from . import models
            out.append(models.call(repl, m))
        else:
            out.append(expand_template(repl, m, cls))
        last = m._e
    out.append(cls.build(us[last:]))
    return cls.build(out)


def expand_template(repl, m, cls):
    if type(repl) in SYMSEQ:
        repl = repl.concretise()
    out = []
    bs = '\\' if cls is SStr else b'\\'
    i = 0
    while i < len(repl):
        c = repl[i:i + 1]
        if c != bs:
            out.append(c)
            i += 1
            continue
        d = repl[i + 1:i + 2]
        ds = d if isinstance(d, str) else d.decode('latin')
        if ds.isdigit():
            g = m.group(int(ds))
            out.append(cls.EMPTY if g is None else g)
            i += 2
        elif ds == 'g':
            j = repl.index('>' if cls is SStr else b'>', i)
            name = repl[i + 3:j]
            name = name if isinstance(name, str) else name.decode()
            g = m.group(int(name) if name.isdigit() else name)
            out.append(cls.EMPTY if g is None else g)
            i = j + 1
        else:
            t = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\'}.get(ds)
            if t is None:
                t = '\\' + ds
            out.append(t if cls is SStr else t.encode())
            i += 2
    return cls.build(out)


def pattern_method(p, name, a, k):
    if name == 'split':
        return split(p, *a, **k)
    if name == 'sub':
        return sub(p, *a, **k)
    return {'match': match, 'search': search, 'fullmatch': fullmatch,
            'findall': findall, 'finditer': finditer}[name](p, *a, **k)
