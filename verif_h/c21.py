"""C21: JPEG headers."""
import io
import os
import pathlib
import tempfile

from verif_o.draw import draw
from verif_o.pdfread import ReadError

PROPERTY = 'C21'
BUDGET = {'quick': 120, 'thorough': 900}
BOUNDS = {'segments': 'up to 2 (quick) / 4 (thorough) segments before the frame header, each any of the markers APPn, COM, DQT, DHT, DAC, DRI, DNL, DHP, EXP (symbolic) or a stand-alone RSTn, with 0..3 symbolic bytes of content or 254..258 and 65533 fixed ones, and 0..2 fill bytes before any marker',
          'frame': 'every start-of-frame marker, symbolic 16 bit width and height, 1, 3 or 4 components, symbolic rest of the header',
          'uses': 'one buffer with symbolic sizes used up to three times; files of 7 names, given as text or path, with and without their kind',
          'rejected': 'files without a frame header: empty, cut short at every byte of the header, ending in image data, not starting with a marker (symbolic bytes); unsupported kinds'}
ASSUMPTIONS = ['PNG images are not claimed: they are decoded by PIL', 'the markers TEM, JPG and JPGn do not occur, components are 1, 3 or 4']
PATH_TIMEOUT = 100

SOF = [0xC0, 0xC1, 0xC2, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF]
OTHER = [(0xC4, 0xC4), (0xCC, 0xCC), (0xDB, 0xDF), (0xE0, 0xEF), (0xFE, 0xFE)]


def configs(tier):
    ns = [0, 1, 2] if tier == 'quick' else [0, 1, 2, 3, 4]
    out = [('wellformed', dict(n=n, alone=a)) for n in ns for a in range(min(n, 1) + 1)]
    out += [('longer', dict(size=s)) for s in (253, 254, 255, 256, 257, 258, 65533)]
    out += [('frames', {}), ('cut', {}), ('rejected', {}), ('names', {}), ('again', {}), ('paths', {})]
    return out


def segment(cx, i, size):
    m = cx.bytes('marker%d' % i, 1, OTHER)
    body = cx.bytes('body%d' % i, size)
    return b'\xff' * cx.choice('fill%d' % i, [1, 2, 3] if i == 0 else [1]) + m + bytes([(size + 2) // 256, (size + 2) % 256]) + body


def frame(cx, sof, comps, fill=1):
    """a frame header: marker, length, precision, height, width, components"""
    h = cx.bytes('height', 2)
    w = cx.bytes('width', 2)
    size = 8 + 3 * comps
    rest = cx.bytes('components', 3 * comps)
    return (b'\xff' * fill + bytes([sof, 0, size, 8]) + h + w + bytes([comps]) + rest), number(h), number(w)


def number(b):
    return b[0] * 256 + b[1]


def load(cx, data, ext='jpg'):
    return cx.mod('image').PDFImage(io.BytesIO(data), ext, 'img')


SPACE = {1: 'DeviceGray', 3: 'DeviceRGB', 4: 'DeviceCMYK'}


def verify(cx, data, w, h, comps, ext='jpg'):
    try:
        im = load(cx, data, ext)
    except ValueError as ex:
        cx.fail('a well-formed JPEG is accepted', ex)
    cx.check(cx.And(im.width == w, im.height == h), 'an image has the width and height of its frame header')
    cx.assume(cx.And(w > 0, h > 0))
    pdf = cx.mod('pdf').PDF()
    pdf.add_page()
    pdf.add_image(im, x=10, y=10, width=100, height=100)
    doc = draw(cx, pdf)
    evs = [e for e in doc.events[0] if e.kind == 'image']
    cx.check(len(evs) == 1, 'the image is drawn')
    s = evs[0].obj
    d = s.dict
    cx.check(d.get('Type') == 'XObject' and d.get('Subtype') == 'Image', 'the image is an image object')
    cx.check(cx.And(d.get('Width') == w, d.get('Height') == h), 'the image object declares its width and height')
    cx.check(d.get('ColorSpace') == SPACE[comps], 'the image object declares its color space')
    cx.check(d.get('BitsPerComponent') == 8, 'the image object declares its depth')
    cx.check(d.get('Filter') == 'DCTDecode', 'the image object declares its encoding')
    cx.check(cx.eqcodes(s.data, cx.units(data)), 'the image object contains the file unchanged')


def wellformed(cx, n, alone):
    data = b'\xff\xd8'
    for i in range(n):
        if alone and i == n - 1:
            data = data + b'\xff' + cx.bytes('rst', 1, [(0xD0, 0xD7)])
        else:
            data = data + segment(cx, i, cx.choice('size%d' % i, [0, 3] if n > 1 else [0, 1, 2, 3]))
    comps = cx.choice('comps', [1, 3, 4] if n < 2 else [3])
    f, h, w = frame(cx, cx.choice('sof', [0xC0, 0xC2] if n < 2 else [0xC2]), comps, cx.choice('fill', [1, 2]))
    data = data + f + b'\xff\xda' + cx.bytes('scan', 2) + b'\xff\xd9'
    verify(cx, data, w, h, comps)


def longer(cx, size):
    data = b'\xff\xd8\xff\xe1' + bytes([(size + 2) // 256, (size + 2) % 256])
    # frame headers of other sizes inside a segment, at the places a wrong length would lead to
    data = data + (b'\xff\xc0\x00\x0b\x08\x00\x01\x00\x02\x01\x01\x11\x00' * (size // 13 + 1))[:size]
    f, h, w = frame(cx, 0xC0, 3)
    verify(cx, data + f + b'\xff\xd9', w, h, 3)


def frames(cx):
    comps = cx.choice('comps', [1, 3, 4])
    f, h, w = frame(cx, cx.choice('sof', SOF), comps)
    verify(cx, b'\xff\xd8' + f, w, h, comps, cx.choice('ext', ['jpg', 'jpeg', '.jpg', '.JPEG', 'JPG']))


def must_reject(cx, data, ext, what):
    try:
        load(cx, data, ext)
    except (ValueError, NotImplementedError):
        cx.check(True, what)
        return
    cx.fail(what)


def cut(cx):
    """a file that ends before or inside its frame header"""
    f, h, w = frame(cx, 0xC0, 3)
    data = b'\xff\xd8' + segment(cx, 0, 2)
    n = cx.choice('n', list(range(0, len(data) + 9)))
    must_reject(cx, (data + f)[:n], 'jpg', 'a file that ends before its frame header does is rejected')


def rejected(cx):
    kind = cx.choice('kind', ['bytes', 'scan', 'ext'])
    f, h, w = frame(cx, 0xC0, 3)
    if kind == 'bytes':
        x = cx.bytes('x', 2)
        cx.assume(x[0] != 0xFF)
        must_reject(cx, x + f, 'jpg', 'a file that does not start with a marker is rejected')
    elif kind == 'scan':
        must_reject(cx, b'\xff\xd8' + segment(cx, 0, 2) + b'\xff\xda\x00\x02' + f, 'jpg',
                    'a file with image data before a frame header is rejected')
    else:
        must_reject(cx, b'\xff\xd8' + f, cx.choice('ext', ['gif', 'tiff', 'webp', '', 'jp', 'jpgx']),
                    'a file of another kind is rejected')


def names(cx):
    """the image object of one name is shared by all its uses"""
    f, h, w = frame(cx, 0xC0, 3)
    cx.assume(cx.And(w > 0, h > 0))
    pdf = cx.mod('pdf').PDF()
    ims = [cx.mod('image').PDFImage(io.BytesIO(b'\xff\xd8' + f + x), 'jpg', n)
           for n, x in (('a', b'1'), ('b', b'2'), ('a', b'1'))]
    want = [b'1', b'2', b'1']
    for i, im in enumerate(ims):
        if i == 2 or cx.bool('page%d' % i):
            pdf.add_page()
        elif i == 0:
            pdf.add_page()
        pdf.add_image(im, x=10, y=10, width=50, height=50)
    doc = draw(cx, pdf)
    evs = [e for p in doc.events for e in p if e.kind == 'image']
    cx.check(len(evs) == 3, 'every image is drawn')
    for e, x in zip(evs, want):
        cx.check(cx.eqcodes(e.obj.data, cx.units(b'\xff\xd8' + f + x)), 'an image shows its own file')


def again(cx):
    """one buffer used more than once"""
    f, h, w = frame(cx, 0xC0, 3)
    cx.assume(cx.And(w > 0, h > 0))
    data = b'\xff\xd8' + segment(cx, 0, 2) + f + cx.bytes('scan', 2)
    buffer = io.BytesIO(data)
    pdf = cx.mod('pdf').PDF()
    n = cx.choice('uses', [2, 3])
    other = cx.bool('other name')
    for i in range(n):
        pdf.add_page()
        try:
            pdf.image(buffer, 'jpg', 'img%d' % (i * other), width=30)
        except ValueError as ex:
            cx.fail('an image can be used again', ex)
    doc = draw(cx, pdf)
    evs = [e for p in doc.events for e in p if e.kind == 'image']
    cx.check(len(evs) == n, 'every image is drawn')
    for e in evs:
        cx.check(cx.And(e.obj.dict.get('Width') == w, e.obj.dict.get('Height') == h), 'an image has the width and height of its frame header')
        cx.check(cx.eqcodes(e.obj.data, cx.units(data)), 'an image shows its own file')


NAMES = ['a.jpg', 'b.JPG', 'c.v1.jpeg', '.d.jpg', 'e f.Jpeg', 'sub.dir/a.jpg', 'gif/h.png.jpg']


def paths(cx):
    """files: their kind is that of the last part of their name"""
    name = cx.choice('name', NAMES)
    w = cx.choice('width', [1, 255, 300])
    data = b'\xff\xd8\xff\xc0\x00\x11\x08\x00\x07' + bytes([w // 256, w % 256]) + b'\x03' + b'\0' * 9 + b'\xff\xd9'
    ext = cx.choice('extension', [None, 'jpg'])
    how = cx.choice('how', ['text', 'path'])
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as out:
            out.write(data)
        try:
            im = cx.mod('image').PDFImage(path if how == 'text' else pathlib.Path(path), ext)
        except (ValueError, NotImplementedError, TypeError) as ex:
            cx.fail('a well-formed JPEG is accepted', ex)
        pdf = cx.mod('pdf').PDF()
        pdf.add_page()
        pdf.add_image(im, width=30)
        doc = draw(cx, pdf)
    evs = [e for e in doc.events[0] if e.kind == 'image']
    cx.check(len(evs) == 1, 'the image is drawn')
    cx.check(evs[0].obj.dict.get('Width') == w and evs[0].obj.dict.get('Height') == 7, 'an image has the width and height of its frame header')
    cx.check(cx.eqcodes(evs[0].obj.data, cx.units(data)), 'the image object contains the file unchanged')
