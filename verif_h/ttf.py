"""A stand-in for the fontTools library: fonts with given glyphs."""
import sys
import types


class Rec:
    def __init__(self, **k):
        self.__dict__.update(k)


class NameRecord(Rec):
    def toStr(self):
        return self.string

    toUnicode = toStr

    def __str__(self):
        return self.string


class NameTable:
    def __init__(self, name):
        self.names = [NameRecord(nameID=i, string=name if i == 6 else 'Name %d of it' % i, platformID=p, platEncID=e, langID=l)
                      for p, e, l in ((1, 0, 0), (3, 1, 0x409)) for i in (0, 1, 2, 3, 4, 5, 6)]

    def getName(self, i, platform, enc, lang=None):
        for n in self.names:
            if (n.nameID, n.platformID, n.platEncID) == (i, platform, enc):
                return n

    def getDebugName(self, i):
        for n in self.names:
            if n.nameID == i:
                return n.string

    def getBestFamilyName(self):
        return self.getDebugName(1)

    def getBestFullName(self):
        return self.getDebugName(4)


class Cmap:
    def __init__(self, cmap):
        self.cmap = cmap

    def getBestCmap(self, *a, **k):
        return dict(self.cmap)


class GlyphSet(dict):
    pass


class Face:
    """glyphs: [(characters, glyph number, width)], in the order of the characters"""

    def __init__(self, name, glyphs, upem=1000, notdef=500, gaps=(), **more):
        self.name, self.upem, self.notdef, self.more = name, upem, notdef, more
        self.gid = {}
        self.width = {}
        for cs, g, w in glyphs:
            for c in cs:
                self.gid[ord(c)] = g
                self.width[ord(c)] = w
        self.glyph = {}
        for cs, g, w in glyphs:
            for c in cs:
                self.glyph[ord(c)] = 'g%x' % ord(cs[0])
        self.cmap = {c: self.glyph[c] for c in sorted(self.glyph)}
        self.ids = {'.notdef': 0}
        self.widths = {'.notdef': notdef}
        for c, n in self.cmap.items():
            self.ids[n] = self.gid[c]
            self.widths[n] = self.width[c]

    def program(self):
        return b'program of ' + self.name.encode()


class TTFont:
    faces = {}

    def __init__(self, file=None, *a, **k):
        self.face = f = self.faces[str(file)]
        m = f.more
        self.tables = {
            'cmap': Cmap(f.cmap), 'name': NameTable(f.name),
            'head': Rec(unitsPerEm=f.upem, xMin=-10, yMin=-200, xMax=1200, yMax=900),
            'hhea': Rec(ascent=800, descent=-200),
            'post': Rec(italicAngle=m.get('angle', 0), isFixedPitch=m.get('fixed', 0)),
            'hmtx': Rec(metrics={n: (w, 0) for n, w in f.widths.items()}),
            'maxp': Rec(numGlyphs=65535)}
        if m.get('os2', True):
            self.tables['OS/2'] = Rec(usWeightClass=m.get('weight', 400), fsType=m.get('fsType', 0), version=m.get('version', 4),
                                      sTypoAscender=750, sTypoDescender=-250, sCapHeight=700)
        for t in m.get('without', ()):
            del self.tables[t]

    def __getitem__(self, k):
        return self.tables[k]

    def __contains__(self, k):
        return k in self.tables

    def get(self, k, default=None):
        return self.tables.get(k, default)

    def has_key(self, k):
        return k in self.tables

    def keys(self):
        return list(self.tables)

    def getBestCmap(self, *a, **k):
        return self.tables['cmap'].getBestCmap()

    def getGlyphSet(self, *a, **k):
        return GlyphSet((n, Rec(width=w)) for n, w in self.face.widths.items())

    def getGlyphID(self, name, *a, **k):
        return self.face.ids[name]

    def getGlyphIDMany(self, names):
        return [self.getGlyphID(n) for n in names]

    def getReverseGlyphMap(self, *a, **k):
        return dict(self.face.ids)

    def save(self, file, *a, **k):
        if hasattr(file, 'write'):
            file.write(self.face.program())
        else:
            raise OSError('a font is written to a file')

    def close(self):
        pass


def install(cx, faces, family='Face'):
    """registers the faces, by mode, as a family"""
    lib = types.ModuleType('fontTools.ttLib')
    lib.TTFont = TTFont
    pkg = types.ModuleType('fontTools')
    pkg.ttLib = lib
    sys.modules['fontTools'] = pkg
    sys.modules['fontTools.ttLib'] = lib
    TTFont.faces = {}
    F = cx.mod('fonts').PDFFont
    if isinstance(getattr(F, 'registered_fonts', None), dict):
        F.registered_fonts.clear()
    for fam, modes in (faces if family is None else {family: faces}).items():
        for mode, face in modes.items():
            path = '%s-%s.ttf' % (fam, mode)
            TTFont.faces[path] = face
            F.register(fam, mode, path)
