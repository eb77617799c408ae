"""What a page delivers can be printed, measured and asked."""
import logging
import re

from vlib import faulty, harness, lib, mutate, docgen, refint, proggen
from vlib.harness import Violation
from vlib.pdfgen import Name, Stream, Style
from pdfmajor.interpreter import PDFInterpreter, LTTextBlock, LTCharBlock, LTChar, LTXObject, LTImage, LTCurve
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.execptions import PDFMajorException

ID = 'C35'
LEVEL = 'exploration'
RULE = ('complete documents (all font kinds, weights and names, character maps, forms, images, colour spaces, empty text objects, closed and degenerate paths) read; every page, item, character, '
        'font, colour, state and object is printed and measured: printing works, names the kind and shows box, text, size and number; sizes, emptiness, overlap and distance follow the boxes; '
        'a text block and a character block cover their characters; font questions (weight, bold, heights, widths of strings) follow the descriptor; afterwards everything is as before, and '
        'reading with debug messages on delivers the same with every message formatted; non-trivial cases counted by distinct page')
ASSUMPTIONS = ['hoverlap and voverlap are only asked where neither extent holds the other']
CASES = {'quick': 3000, 'thorough': 30000}
MIN = {'pages': 3000, 'items': 16000, 'named': 200, 'chars': 8000, 'fonts': 1500, 'empty_text': 1000, 'pairs': 15000, 'bold': 200, 'not_bold': 1000, 'objects': 20000, 'messages': 100000, 'image': 300, 'xobj': 300, 'curve': 2000,
       '#printed': 15, 'heavy': 100, 'debug_same': 500}

STANDARD = ('Helvetica', 'Helvetica-Bold', 'Helvetica-BoldOblique', 'Courier-Bold', 'Courier', 'Times-Roman', 'Times-BoldItalic', 'Times-Bold', 'Symbol', 'ZapfDingbats')


def near(a, b):
    return a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


class Messages(logging.Handler):
    """Formats every message as a handler on a terminal would."""
    n = 0
    bad = None

    def emit(self, rec):
        self.n += 1
        try:
            str(rec.getMessage())
        except Exception as e:
            self.bad = self.bad or (rec.msg, e)


def build(r, obs):
    out = faulty.base(r)
    doc = out.doc
    f = proggen.rand_font(r, doc, 'Q')
    ops = []
    for _ in range(r.randrange(1, 5)):
        ops.append(r.choice((b'BT ET', b'BT /Q 10 Tf 3 4 Td ET', b'BT /Q 0 Tf (AB) Tj ET', b'1 2 m h S', b'5 5 m 5 5 l S', b'0 0 m 10 20 l 30 -5 l f', b'BT /Q 12 Tf [-300 (A) 200] TJ () Tj ET',
                             b'10 10 0 0 re B', b'7 7 m 9 7 l S', b'7 7 m 7 9 l S', b'1 2 m 3 4 5 6 7 8 c S', b'q 5 w /X gs 1 0 0 rg 0 0 5 5 re f Q', b'BT 1 2 Td ET', b'BT /S 9 Tf (std) Tj ET')))
    std = {'Type': Name('Font'), 'Subtype': Name('Type1'), 'BaseFont': Name(r.choice(STANDARD))}
    page = doc.page(b'\n'.join(ops), {'Font': {'Q': f.spec, 'S': std}})
    if 'Kids' in doc.pages_attrs:
        doc.pages_attrs['Kids'].append(page)
    mutate.freeze(doc)
    fonts = [o for n, (g, o) in doc.objs.items() if isinstance(o, dict) and o.get('Type') == Name('FontDescriptor')]
    sl = []
    for n, (g, o) in doc.objs.items():
        mutate.slots(o, sl)
    fonts += [c[k] for c, k in sl if k is not None and isinstance(c[k], dict) and c[k].get('Type') == Name('FontDescriptor')]
    for d in fonts:
        k = r.random()
        if k < 0.3:
            d['FontWeight'] = r.choice((100, 400, 549, 550, 551, 549.5, 700, 900, doc.add(700)))
        elif k < 0.6:
            d['FontName'] = Name(r.choice(('Foo-Bold', 'ABCDEF+FooBOLDItalic', 'semibold', 'Times', 'Bol-d')))
    return doc.build(rng=r, layout=r.choice(('table', 'stream')))


def printed(x, obs, *parts):
    try:
        s = repr(x)
        str(x)
    except Exception as e:
        raise Violation('printing of %s fails: %s' % (type(x).__name__, harness.short_tb(e)))
    if not isinstance(s, str) or not s:
        raise Violation('printing of %s gives %r' % (type(x).__name__, s))
    for p in parts:
        if p not in s:
            raise Violation('%r is printed without %r' % (type(x).__name__, (p, s[:300])))
    obs.distinct('printed', type(x).__name__)
    return s


def coords(x):
    return ['%.3f' % v for v in (x.x0, x.y0, x.x1, x.y1)]


def measured(x, obs):
    b = x.bbox
    if (x.x0, x.y0, x.x1, x.y1) != (b.x0, b.y0, b.x1, b.y1):
        raise Violation('the corners of %r are not those of its box' % (x,))
    if x.x0 is None:
        obs.count('empty_text')
        if (x.width, x.height, x.is_empty()) != (0, 0, True):
            raise Violation('an item without a position is %r by %r' % (x.width, x.height))
        return False
    if not (x.x0 <= x.x1 and x.y0 <= x.y1):
        raise Violation('the box of %r is inside out' % (x,))
    if not (near(x.width, x.x1 - x.x0) and near(x.height, x.y1 - x.y0) and x.is_empty() == (x.x1 <= x.x0 or x.y1 <= x.y0)):
        raise Violation('%r measures %r by %r, empty %r' % (x, x.width, x.height, x.is_empty()))
    return True


def covers(x, parts):
    want = (min(p.x0 for p in parts), min(p.y0 for p in parts), max(p.x1 for p in parts), max(p.y1 for p in parts))
    if not all(near(a, b) for a, b in zip(want, (x.x0, x.y0, x.x1, x.y1))):
        raise Violation('%r has the box %r, its parts %r' % (type(x).__name__, (x.x0, x.y0, x.x1, x.y1), want))


def look(x, obs, seen, flat):
    obs.count('items')
    kind = type(x).__name__
    try:
        placed = measured(x, obs)
    except Violation:
        raise
    except Exception as e:
        raise Violation('measuring of %s fails: %s' % (kind, harness.short_tb(e)))
    if placed:
        flat.append(x)
    if isinstance(x, (LTTextBlock, LTCharBlock, LTXObject)):
        parts = list(x)
        if len(x) != len(parts) or any(a is not b for a, b in zip(x, parts)):
            raise Violation('%s of %d parts has the length %d' % (kind, len(parts), len(x)))
        if not isinstance(x, LTXObject):
            if bool(parts) != placed:
                raise Violation('%s with %d parts has the box %r' % (kind, len(parts), x.bbox))
            if parts:
                covers(x, parts)
        for p in parts:
            look(p, obs, seen, flat)
    if isinstance(x, LTCharBlock):
        t = ''.join(c.get_text() for c in x)
        if x.get_text() != t:
            raise Violation('the text of a block is %r, of its characters %r' % (x.get_text(), t))
        printed(x, obs, kind, t)
    elif isinstance(x, LTChar):
        obs.count('chars')
        printed(x, obs, kind, repr(x.get_text()), repr(x.fontname), *coords(x))
    elif isinstance(x, LTImage):
        obs.count('image')
        printed(x, obs, kind, x.name, *coords(x))
        printed(x.stream, obs)
        printed(x.colorspace, obs)
    elif isinstance(x, LTXObject):
        obs.count('xobj')
        printed(x, obs, kind, x.name, *coords(x))
        printed(x.stream, obs)
        printed(x.resources, obs)
    elif isinstance(x, LTCurve):
        obs.count('curve')
        printed(x, obs, kind, *coords(x))
        for c in (x.stroke, x.fill):
            colour(c, obs)
        for p in x.paths:
            printed(p, obs, *['(%s, %s)' % (q.x, q.y) for q in p.points])
    else:
        printed(x, obs, kind)
    if isinstance(x, (LTCharBlock, LTChar)):
        want = x.width if x.font.is_vertical() else x.height
        if not near(x.size, want):
            raise Violation('the size of %r is %r, its box is %r by %r' % (x, x.size, x.width, x.height))
        if x.font is not x.textstate.font or x.fontname != x.font.fontname:
            raise Violation('the font of %r is not that of its state' % (x,))
        colour(x.color, obs)
        if isinstance(x, LTCharBlock):
            t = x.textstate
            printed(t, obs, repr(t.fontsize), repr(t.font))
            try:
                up = t.is_upright
            except Exception as e:
                raise Violation('is_upright fails: %s' % harness.short_tb(e))
            a, b, c, d = t.matrix[:4]
            if up != (a * d * t.scaling > 0 and b * c <= 0):
                raise Violation('is_upright of %r scaled by %r is %r' % (t.matrix, t.scaling, up))
        if id(x.font) not in seen:
            seen[id(x.font)] = x.font
            font(x.font, obs)


def colour(c, obs):
    s = printed(c, obs)
    if c.color_space is not None:
        printed(c.color_space, obs, str(c.color_space.name))
    if repr(c.values) not in s:
        raise Violation('the colour %r is printed %s' % (c.values, s))
    d = c.copy()
    if d is c or (d.color_space, d.values) != (c.color_space, c.values):
        raise Violation('the copy of %r is %r' % (c, d))


def font(f, obs):
    obs.count('fonts')
    printed(f, obs)
    d = f.descriptor
    w = d.get('FontWeight')
    name = str(f.fontname)
    want = w.lower() == 'bold' if isinstance(w, str) else w > 549 if w is not None else 'bold' in name.lower()
    try:
        got = f.is_bold
        v = (f.get_width(), f.get_height(), f.get_ascent(), f.get_descent())
        codes = bytes(range(0, 256, 5)) + b'\0A'
        n = [f.char_width(c) for c in f.decode(codes)]
        total = f.string_width(codes)
        [f.char_disp(c) for c in range(0, 300, 7)]
        multi = f.is_multibyte()
    except Exception as e:
        raise Violation('asking a %s (weight %r) fails: %s' % (type(f).__name__, w, harness.short_tb(e)))
    obs.count('named', isinstance(w, str))
    obs.count('heavy', w is not None)
    obs.count('bold' if want else 'not_bold')
    if bool(got) != want or f.font_weight != (w if w is not None else 'bold' if want else None):
        raise Violation('the font %s of weight %r: bold %r, weight %r' % (name, w, got, f.font_weight))
    if not near(total, sum(n)):
        raise Violation('a string is %r wide, its characters %r' % (total, sum(n)))
    if not all(isinstance(x, (int, float)) for x in v) or multi != (type(f).__name__ == 'PDFCIDFont'):
        raise Violation('%s: measures %r, more than one byte %r' % (type(f).__name__, v, multi))
    if v[2] != f.ascent * f.vscale or v[3] != f.descent * f.vscale:
        raise Violation('ascent %r and descent %r are given as %r' % (f.ascent, f.descent, v[2:]))
    if f.unicode_map is not None:
        printed(f.unicode_map, obs)
    if getattr(f, 'cmap', None) is not None:
        printed(f.cmap, obs)


def axis(a0, a1, b0, b1):
    """(overlapping, distance, shared length or None)"""
    over = a0 <= b1 and b0 <= a1
    nested = a0 <= b0 and b1 <= a1 or b0 <= a0 and a1 <= b1
    return over, max(b0 - a1, a0 - b1, 0), None if nested and over else max(0, min(a1, b1) - max(a0, b0))


def pair(a, b, obs):
    obs.count('pairs')
    for n, (x0, x1, y0, y1) in (('h', (a.x0, a.x1, b.x0, b.x1)), ('v', (a.y0, a.y1, b.y0, b.y1))):
        over, dist, length = axis(x0, x1, y0, y1)
        got = (getattr(a, 'is_%soverlap' % n)(b), getattr(a, n + 'distance')(b), getattr(a, n + 'overlap')(b))
        if got[0] != over or not near(got[1], dist) or length is not None and not near(got[2], length):
            raise Violation('%r and %r: %s overlap, distance and length are %r, expected %r' % (a, b, n, got, (over, dist, length)))


def case(r, i, tier, obs):
    pdf = build(r, obs)
    obs.artifact('pdf', pdf)
    path = harness.write_tmp(pdf, 'in.pdf')
    kw = dict(ignore_bad_chars=True, check_extractable=False)
    it = PDFInterpreter(path, **kw)
    view = []
    for k, page in enumerate(it):
        obs.count('pages')
        printed(page, obs, str(page.page_num), str(page.width), str(page.height))
        printed(page.page, obs)
        items = list(page)
        before = [lib.item_view(x, False) for x in items]
        view.append(before)
        flat, seen = [], {}
        for x in items:
            look(x, obs, seen, flat)
        for _ in range(min(20, len(flat) ** 2)):
            a, b = r.choice(flat), r.choice(flat)
            pair(a, b, obs)
            pair(b, a, obs)
        if before != [lib.item_view(x, False) for x in items]:
            raise Violation('printing and measuring the items of page %d changed them' % k)
        obs.nontrivial(before)
    doc = lib.open_doc(pdf)
    for x in doc.xrefs:
        printed(x, obs)
    for m in sorted({m for x in doc.xrefs for m in x.get_objids()}):
        o = doc.getobj(m)
        obs.count('objects')
        a = printed(o, obs)
        if isinstance(o, PDFStream):
            c = lib.canon(o.attrs)
            try:
                o.get_data()
            except PDFMajorException:
                pass
            printed(o, obs)
            if lib.canon(o.attrs) != c:
                raise Violation('printing object %d changed it' % m)
    printed(doc.catalog, obs)
    if r.random() < 0.5:
        # the same with messages
        root, h = logging.getLogger(), Messages()
        old, off, handlers = root.level, logging.root.manager.disable, root.handlers
        try:
            logging.disable(logging.NOTSET)
            root.handlers = [h]
            root.setLevel(logging.DEBUG)
            again = [[lib.item_view(x, False) for x in page] for page in PDFInterpreter(path, debug_level=logging.DEBUG, **kw)]
        finally:
            root.handlers = handlers
            root.setLevel(old)
            logging.disable(off)
        obs.count('messages', h.n)
        if h.bad:
            raise Violation('the message %r cannot be formatted: %s' % (h.bad[0], harness.short_tb(h.bad[1])))
        if again != view:
            raise Violation('with debug messages on: %s' % lib.diff(view, again))
        obs.count('debug_same')
