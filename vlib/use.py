"""Use of everything a document offers, the way callers do it."""
import io
import os

from pdfmajor.parser.PDFDocument import PDFDocument
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.interpreter import PDFInterpreter, LTTextBlock, LTCharBlock, LTChar, LTXObject, LTImage, LTCurve
from pdfmajor.converters import convert_file
from pdfmajor import execptions as ex

from . import harness

DOC = ex.PDFMajorException


class Use:
    """Runs the parts of a document, each ending in a result or an exception
    handed to bad() when it is not one of the documented ones."""

    def __init__(self, obs, bad):
        self.obs = obs
        self.bad = bad

    def part(self, name, f, *a, **kw):
        try:
            v = f(*a, **kw)
        except DOC as e:
            self.obs.count('errors')
            self.obs.distinct('documented', type(e).__name__)
            self.obs.count(name + '-err')
            return None
        except Exception as e:
            self.bad(name, e)
            return None
        self.obs.count(name)
        return v

    def each(self, name, it, f=None, cap=100000):
        """Consume an iterable of parts."""
        out = []

        def run():
            for x in it:
                out.append(x)
                if f:
                    f(x)
        self.part(name, run)
        return out

    # -- the document level
    def document(self, data, password='', **kw):
        doc = self.part('open', lambda: PDFDocument(PDFParser(io.BytesIO(data)), password=password, **kw))
        if doc is None:
            return None
        ids = []
        for x in doc.xrefs:
            got = self.part('objids', lambda: list(x.get_objids()))
            ids.extend(got or [])
        for n in ids[:400]:
            o = self.part('getobj', doc.getobj, n)
            if isinstance(o, PDFStream):
                self.part('data', o.get_data)
        o = self.part('outlines', doc.get_outlines)
        if o is not None:
            self.each('outline', o)
        for n in (b'n3', b'name', 'd0', 'Old'):
            self.part('dest', doc.get_dest, n)
        return doc

    def pages(self, data, password='', **kw):
        p = harness.write_tmp(data, 'hostile.pdf')
        it = self.part('interpreter', lambda: PDFInterpreter(p, password=password, **kw))
        ps = self.each('pages', it)
        for page in ps:
            self.obs.count('page')
            self.part('page-size', lambda: (page.width + 0, page.height + 0, repr(page)))
            items = self.each('items', page)
            for i in items:
                self.item(i)

    def item(self, i, depth=0):
        self.obs.count('item')
        if i is None:
            self.bad('item', TypeError('an item that is None'))
            return
        self.part('bbox', lambda: (i.bbox.x0, i.bbox.y1) + ((i.width, i.height) if i.bbox.x0 is not None else ()))
        if isinstance(i, (LTTextBlock, LTXObject)):
            for c in i:
                self.item(c, depth + 1)
        elif isinstance(i, LTCharBlock):
            self.part('block', lambda: (i.fontname, i.size, i.color, i.font))
            for c in i:
                self.item(c)
        elif isinstance(i, LTChar):
            t = self.part('char', i.get_text)
            if t is not None and not isinstance(t, str):
                self.bad('char', TypeError('text %r' % (t,)))
        elif isinstance(i, LTImage):
            self.part('image-data', i.stream.get_data)
            self.part('image', lambda: (i.srcsize, i.bits, i.imagemask, i.colorspace))
        elif isinstance(i, LTCurve):
            self.part('curve', lambda: (i.linewidth, i.stroke, i.fill, [[(q.x, q.y) for q in p.points] for p in i.paths]))

    def convert(self, data, out_type, password='', **kw):
        p = harness.write_tmp(data, 'hostile.pdf')
        o = os.path.join(harness.tmpdir(), 'hostile.' + out_type)

        def run():
            convert_file(p, o, out_type=out_type, password=password, **kw)
        self.part('convert', run)
        if os.path.exists(o):
            os.remove(o)
