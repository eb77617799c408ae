"""Access to the code under test through its public classes."""
import io
import os

from pdfmajor.parser.PDFDocument import PDFDocument
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.parser.PSStackParser import PSLiteral, PSKeyword
from pdfmajor.interpreter import PDFInterpreter, PageInterpreter
from pdfmajor.interpreter import (LTTextBlock, LTCharBlock, LTChar, LTCurve, LTLine, LTHorizontalLine,
                                  LTVerticalLine, LTRect, LTImage, LTXObject)
from pdfmajor import execptions as ex

from .pdfgen import Name, Ref, Raw, Stream as GStream
from . import harness


def name_value(n):
    """Library view of a name: str when valid UTF-8, else bytes."""
    n = n.n if isinstance(n, Name) else (n.encode('utf-8') if isinstance(n, str) else n)
    try:
        return n.decode('utf-8')
    except UnicodeDecodeError:
        return n


def canon(x, doc=None, depth=0):
    """Library object -> comparable structure (type-exact)."""
    if depth > 60:
        return ('...',)
    if x is None:
        return ('null',)
    if isinstance(x, bool):
        return ('bool', x)
    if isinstance(x, int):
        return ('int', x)
    if isinstance(x, float):
        return ('real', x)
    if isinstance(x, bytes):
        return ('str', x)
    if isinstance(x, PSLiteral):
        return ('name', x.name)
    if isinstance(x, PSKeyword):
        return ('kwd', x.name)
    if isinstance(x, (list, tuple)):
        return ('arr', [canon(v, doc, depth + 1) for v in x])
    if isinstance(x, dict):
        return ('dict', {k if isinstance(k, (str, bytes)) else repr(k): canon(v, doc, depth + 1) for k, v in x.items()})
    if isinstance(x, PDFStream):
        return ('stream', {k if isinstance(k, (str, bytes)) else repr(k): canon(v, doc, depth + 1) for k, v in x.attrs.items() if k != 'Length'}, x.get_data())
    if isinstance(x, PDFObjRef):
        return ('ref', x.objid)
    return ('?', type(x).__name__, repr(x))


def expect(o):
    """Generator object -> the same structure."""
    if o is None:
        return ('null',)
    if isinstance(o, bool):
        return ('bool', o)
    if isinstance(o, int):
        return ('int', o)
    if isinstance(o, float):
        return ('real', o)
    if isinstance(o, (bytes, bytearray)):
        return ('str', bytes(o))
    if isinstance(o, Name):
        return ('name', name_value(o))
    if isinstance(o, (list, tuple)):
        return ('arr', [expect(v) for v in o])
    if isinstance(o, dict):
        return ('dict', {name_value(k): expect(v) for k, v in o.items() if v is not None})
    if isinstance(o, Ref):
        return ('ref', o.num)
    if isinstance(o, GStream):
        return ('stream', {name_value(k): expect(v) for k, v in o.attrs.items() if v is not None and k != 'Length'}, o.data)
    raise TypeError(type(o))


def diff(a, b, path=''):
    """First difference between two canonical structures."""
    if type(a) is not type(b):
        return '%s: expected %s got %s' % (path, short(a), short(b))
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return '%s: expected %s got %s' % (path, short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return '%s: keys expected %s got %s' % (path, short(sorted(map(repr, a))), short(sorted(map(repr, b))))
        for k in a:
            d = diff(a[k], b[k], '%s/%s' % (path, k))
            if d:
                return d
        return None
    if a != b:
        return '%s: expected %s got %s' % (path, short(a), short(b))
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 260 else s[:170] + ' ... ' + s[-70:]


def open_doc(data, password='', caching=True, fp=None, **kw):
    parser = PDFParser(fp if fp is not None else io.BytesIO(data))
    return PDFDocument(parser, password=password, caching=caching, **kw)


def interp(data, name='in.pdf', **kw):
    p = harness.write_tmp(data, name)
    return PDFInterpreter(p, **kw)


def pages(data, **kw):
    """-> list of (page, [items]) fully consumed."""
    out = []
    for page in interp(data, **kw):
        out.append((page, list(page)))
    return out


def items(data, **kw):
    ps = pages(data, **kw)
    return ps[0][1]


# -- comparable view of interpreted output ------------------------------------
def r(v, nd=5):
    if v is None:
        return None
    return round(float(v), nd) + 0.0


def bbox(i, nd=5):
    b = i.bbox
    return (r(b.x0, nd), r(b.y0, nd), r(b.x1, nd), r(b.y1, nd))


def color(c):
    return (c.color_space.name if c.color_space is not None else None,
            tuple(v.name if isinstance(v, PSLiteral) else v for v in c.values))


def item_view(i, full=True):
    if isinstance(i, LTTextBlock):
        return ('text', bbox(i), [item_view(b) for b in i])
    if isinstance(i, LTCharBlock):
        return ('block', bbox(i), color(i.color), i.fontname, r(i.size), [item_view(c) for c in i])
    if isinstance(i, LTChar):
        return ('char', i.get_text(), bbox(i))
    if isinstance(i, LTXObject):
        return ('xobj', bbox(i), [item_view(c) for c in i])
    if isinstance(i, LTImage):
        return ('image', bbox(i), canon(list(i.srcsize)), canon(i.bits), canon(i.imagemask), canon(i.colorspace),
                harness.h8(i.stream.get_data()) if full else None)
    if isinstance(i, LTCurve):
        return (type(i).__name__, bbox(i), r(i.linewidth), bool(i.evenodd), color(i.stroke), color(i.fill),
                [(p.method.value, [(r(q.x), r(q.y)) for q in p.points]) for p in i.paths])
    return ('?', repr(i))


def page_view(data, **kw):
    return [(p.page_num, r(p.width), r(p.height), [item_view(i) for i in its]) for p, its in pages(data, **kw)]


def text_of(item):
    if isinstance(item, LTChar):
        return item.get_text()
    if isinstance(item, (LTTextBlock, LTCharBlock, LTXObject)):
        return ''.join(text_of(c) for c in item)
    return ''
