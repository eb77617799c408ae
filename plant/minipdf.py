"""Tiny PDF writer for demonstrations."""
import io
import os
import sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True


def build(objs, trailer='/Root 1 0 R', header=b'%PDF-1.7\n'):
    """objs: {number: bytes body (without obj/endobj)}"""
    out = bytearray(header)
    off = {}
    for n, b in objs.items():
        off[n] = len(out)
        out += b'%d 0 obj\n' % n + b + b'\nendobj\n'
    x = len(out)
    top = max(objs) + 1
    out += b'xref\n0 %d\n0000000000 65535 f \n' % top
    for n in range(1, top):
        out += b'%010d 00000 n \n' % off[n] if n in off else b'0000000000 00000 f \n'
    out += b'trailer\n<</Size %d %s>>\nstartxref\n%d\n%%%%EOF\n' % (top, trailer.encode(), x)
    return bytes(out)


def stream(data, attrs=b''):
    return b'<<%s /Length %d>>\nstream\n' % (attrs, len(data)) + data + b'\nendstream'


HELV = b'<</Type/Font/Subtype/Type1/BaseFont/Helvetica/Encoding/WinAnsiEncoding>>'


def page_objs(content, resources=b'<</Font<</F 5 0 R>>>>', extra=None, page=b''):
    o = {1: b'<</Type/Catalog/Pages 2 0 R>>', 2: b'<</Type/Pages/Kids[3 0 R]/Count 1>>',
         3: b'<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Contents 4 0 R/Resources ' + resources + page + b'>>',
         4: stream(content), 5: HELV}
    o.update(extra or {})
    return o


def onepage(content, **kw):
    return build(page_objs(content, **kw))


def doc(data, password=''):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    return PDFDocument(PDFParser(io.BytesIO(data)), password=password)


def interp(data, **kw):
    import tempfile
    from pdfmajor.interpreter import PDFInterpreter
    f = tempfile.NamedTemporaryFile(suffix='.pdf', delete=False)
    f.write(data)
    f.close()
    try:
        return [list(p) for p in PDFInterpreter(f.name, **kw)]
    finally:
        os.unlink(f.name)


def items(data, **kw):
    return interp(data, **kw)[0]


def text(item):
    if hasattr(item, 'get_text'):
        return item.get_text()
    try:
        return ''.join(text(c) for c in item)
    except TypeError:
        return ''


def box(i):
    return tuple(round(v, 6) for v in (i.bbox.x0, i.bbox.y0, i.bbox.x1, i.bbox.y1))


def check(what, got, want):
    if got != want:
        print('%s: expected %r, got %r' % (what, want, got))
        sys.exit(1)
