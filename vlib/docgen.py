"""Random whole documents: several pages sharing fonts, forms, images, spaces."""
import zlib
from .pdfgen import Doc, Style, Name, Stream, Writer
from .proggen import Gen, rand_font, font_res, colour_spaces, image_xobj, inline_image, rand_matrix, dy
from . import refint


class Rich:
    """pdf, npages and what went in."""


def rich(r, npages=None, size=None, forms=True, images=True, outlines=True, enc=None, maxtext=6, shared=True, build=True, fontf=rand_font, pats=None):
    doc = Doc()
    n = npages if npages is not None else r.choice((1, 2, 3, 3, 5))
    if npages is None and r.random() < 0.03:
        # many short pages
        n = r.choice((7, 12, 25))
        size = (1, 2)
    style = Style(r, r.choice((0, 0, 0.4)))
    fonts = [fontf(r, doc, 'F%d' % j) for j in range(r.choice((1, 2, 3)))]
    sd, sm = colour_spaces(r, doc) if r.random() < 0.5 else ({}, {})
    xo = {}
    if images:
        for j in range(r.choice((0, 1, 2))):
            xo['Im%d' % j] = image_xobj(r, doc)[0]

    def form(level):
        fx = {}
        ff = [f for f in fonts if r.random() < 0.7]
        if level < 3 and r.random() < 0.4:
            fx['Fn'] = form(level + 1)
        for k, v in xo.items():
            if k.startswith('Im') and r.random() < 0.5:
                fx[k] = v
        g = Gen(r, fonts=ff, spaces=sm, xobjs=list(fx), maxtext=maxtext, pats=pats)
        if 'Fn' in fx:
            g.add('Do', Name('Fn'))
        data = refint.content(g.run(r.choice((1, 4, 8)) if r.random() < 0.96 else 60), style)
        a = {'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, dy(r, 1, 500), dy(r, 1, 500)]}
        if r.random() < 0.5:
            a['Matrix'] = list(rand_matrix(r))
        a['Resources'] = {'Font': font_res(ff), 'ColorSpace': sd, 'XObject': fx}
        if r.random() < 0.4:
            data = zlib.compress(data)
            a['Filter'] = Name('FlateDecode')
        return doc.add(Stream(a, data))
    if forms:
        for j in range(r.choice((0, 1, 2))):
            xo['Fm%d' % j] = form(0)
    res = {'Font': font_res(fonts), 'ColorSpace': sd, 'XObject': xo}
    common = doc.add(res) if r.random() < 0.5 else res
    for k in range(n):
        if shared and r.random() < 0.7:
            pf, d = fonts, common
        else:
            # the same names bound to other fonts
            pf = [fontf(r, doc, f.name) for f in fonts]
            d = dict(res, Font=font_res(pf))
        g = Gen(r, fonts=pf, spaces=sm, xobjs=list(xo), inline=inline_image if images else None, maxtext=maxtext, pats=pats)
        ops = g.run(r.choice(size or (2, 6, 15)))
        data = refint.content(ops, style)
        extra = {}
        if r.random() < 0.3:
            extra['Rotate'] = r.choice((90, 180, 270))
        x0, y0 = r.choice(((0, 0), (0, 0), (-20, 30.5)))
        mb = (x0, y0, x0 + r.choice((200, 595, 612)), y0 + r.choice((300, 792, 841.5)))
        if r.random() < 0.3:
            doc.page([Stream({'Filter': Name('FlateDecode')}, zlib.compress(data))], d, mb, **extra)
        elif r.random() < 0.3:
            cuts = sorted(r.randrange(len(ops) + 1) for _ in range(r.choice((1, 2, 4))))
            doc.page([refint.content(ops[a:b], style) for a, b in zip([0] + cuts, cuts + [len(ops)])], d, mb, **extra)
        else:
            doc.page(data, d, mb, **extra)
    if outlines and r.random() < 0.5:
        names = []
        root = doc.alloc()
        kids = [doc.alloc() for _ in range(r.choice((1, 3)))]
        from .pdfgen import Ref
        for j, k in enumerate(kids):
            o = {'Title': r.choice((b'entry %d' % j, b'\xfe\xff' + ('entr\u00e9 \U0001d11e %d' % j).encode('utf-16-be'), b'\x80\xa0 %d' % j)), 'Parent': Ref(root), 'Dest': [doc.kids[j % len(doc.kids)], Name('Fit')]}
            if j:
                o['Prev'] = Ref(kids[j - 1])
            if j + 1 < len(kids):
                o['Next'] = Ref(kids[j + 1])
            doc.objs[k] = (0, o)
        doc.objs[root] = (0, {'First': Ref(kids[0]), 'Last': Ref(kids[-1]), 'Count': len(kids)})
        doc.catalog['Outlines'] = Ref(root)
        doc.catalog['Dests'] = {'d%d' % j: [doc.kids[j % len(doc.kids)], Name('Fit')] for j in range(2)}
    out = Rich()
    out.doc, out.npages, out.fonts, out.style = doc, n, fonts, style
    if build:
        kw = {}
        p = r.random()
        if p < 0.2:
            kw = dict(layout='stream', packed=set(k for k, (g, o) in doc.objects().items() if g == 0 and not isinstance(o, Stream)) if enc is None else ())
        elif p < 0.3:
            kw = dict(layout='stream')
        out.pdf = doc.build(style=style, rng=r, enc=enc, **kw)
    return out
