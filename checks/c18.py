"""A form XObject paints what its content would paint inline."""
import zlib
from vlib.harness import Violation
from vlib.pdfgen import Doc, Style, Name, Stream, Ref
from vlib import lib, refint
from vlib.proggen import Gen, rand_font, simple_font, font_res, rand_matrix, colour_spaces, image_xobj, dy, LETTERS

ID = 'C18'
LEVEL = 'exploration'
RULE = ('random form trees (own or inherited resources, same names bound differently, matrices, repeated use, inherited state, nesting up to 12, forms that invoke themselves or a form around them); painted '
        'objects compared with an independent reference interpreter that runs the form content in place; non-trivial when a form paints something, '
        'counted by distinct document')
ASSUMPTIONS = ['a form without resources is invoked from the page or from another such form',
               'line width and colours after a Q are accepted with and without the C13 known finding']
CASES = {'quick': 5000, 'thorough': 40000}
MIN = {'invocations': 7000, 'nested': 1200, 'in_form': 15000, 'matrix': 2000, 'own_resources': 2000, 'inherited_resources': 500, 'inherited_font': 150, 'left_out': 150}


def case(r, i, tier, obs):
    doc = Doc()
    forms = {}
    style = Style(r, r.choice((0, 0, 0.5)))

    def resources(prefix, level, above=()):
        """-> (pdf dict, model Res, Gen kwargs)"""
        fonts = [rand_font(r, doc, 'F%d' % j) for j in range(r.choice((0, 1, 2)))]
        sd, sm = colour_spaces(r, doc) if r.random() < 0.5 else ({}, {})
        xo, xm = {}, {}
        if r.random() < 0.4:
            ref, im = image_xobj(r, doc)
            xo['Im0'], xm['Im0'] = ref, im
        for j in range(r.choice((0, 1, 2)) if level < depth else 0):
            ref, f = form(level + 1, above=above)
            xo['Fm%d' % j], xm['Fm%d' % j] = ref, f
        if above and r.random() < 0.06:
            # a form around this one, or itself
            ref, f = r.choice(above[-3:])
            xo['Fu'], xm['Fu'] = ref, f
            obs.count('self_reference')
        d = {}
        if fonts:
            d['Font'] = font_res(fonts)
        if sd:
            d['ColorSpace'] = sd
        if xo:
            d['XObject'] = xo
        for k in list(d):
            if r.random() < 0.3:
                d[k] = doc.add(d[k])
        if not d or r.random() < 0.3:
            d['ProcSet'] = [Name('PDF'), Name('Text')]
        return d, refint.Res({f.name: f for f in fonts}, sm, xm), dict(fonts=fonts, spaces=sm, xobjs=list(xm))

    def body(kw, n):
        g = Gen(r, maxtext=5, qdepth=4, **kw)
        g.fresh = set()
        if kw['xobjs'] and r.random() < 0.7:
            g.add('Do', Name(r.choice(kw['xobjs'])))
        return g

    def form(level, inherit=None, needs=False, above=()):
        num = doc.alloc()
        me = (Ref(num), refint.Form(None, None, None, None))
        if inherit is None:
            d, res, kw = resources('f', level, above + (me,))
            g = body(kw, 0)
            prog = g.run(r.choice((1, 3, 8, 15)))
        else:
            kw = inherit
            g = body(dict(kw, xobjs=[x for x in kw['xobjs'] if x.startswith('Im')]), 0)
            if needs:
                # text shown with the font, size and spacing of the caller
                g.add('BT')
                g.add('Td', g.num(), g.num())
                g.add('Tj', bytes(r.choice(LETTERS[:52]) for _ in range(3)))
                g.add('ET')
            prog = g.run(r.choice((1, 3, 8)))
            d = res = None
        x0, y0 = dy(r, -100, 100), dy(r, -100, 100)
        bbox = (x0, y0, x0 + dy(r, 1, 500), y0 + dy(r, 1, 500))
        a = {'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': list(bbox)}
        m = None
        if r.random() < 0.6:
            m = rand_matrix(r)
            a['Matrix'] = doc.add(list(m)) if r.random() < 0.2 else list(m)
            obs.count('matrix')
        elif r.random() < 0.3:
            a['Matrix'] = [1, 0, 0, 1, 0, 0]
        if r.random() < 0.2:
            a['BBox'] = doc.add(a['BBox'])
        if r.random() < 0.05:
            for k in ('BBox', 'Matrix'):
                if isinstance(a.get(k), list):
                    a[k] = [doc.add(v) if r.random() < 0.5 else v for v in a[k]]
        if d is not None:
            a['Resources'] = doc.add(d) if r.random() < 0.4 else d
            obs.count('own_resources')
        else:
            obs.count('inherited_resources')
        data = refint.content(prog, style)
        if r.random() < 0.3:
            data = zlib.compress(data)
            a['Filter'] = Name('FlateDecode')
        doc.objs[num] = (0, Stream(a, data))
        f = me[1]
        f.prog, f.bbox, f.matrix, f.res = prog, bbox, m, res
        return me

    depth = r.choice((1, 1, 2, 3))
    if r.random() < 0.02:
        depth = 12
    d, res, kw = resources('p', 0)
    xo = dict(doc_get(doc, d.get('XObject', {})))
    # forms without resources of their own
    plain = [f for f in kw['fonts'] if f.nbytes == 1 and f.fontname]
    pre = []
    for j in range(r.choice((0, 1))):
        needs = bool(plain) and r.random() < 0.7
        obs.count('inherited_font', int(needs))
        nm = 'Fp%d' % j
        xo[nm], res.xobjs[nm] = form(1, kw, needs)
        pre.append((nm, needs))
    if xo:
        d['XObject'] = xo
    g = body(kw, 0)
    for nm, needs in pre:
        for _ in range(r.choice((1, 2))):
            if needs:
                f = r.choice(plain)
                g.add('Tf', Name(f.name), r.choice((1, 10, 12.5)))
                if r.random() < 0.5:
                    g.add(r.choice(('Tc', 'Tw', 'Ts')), r.choice((0, 1.5, -2)))
            g.add('Do', Name(nm))
            g.step()
    prog = g.run(r.choice((2, 6, 15)))
    data = refint.content(prog, style)
    doc.page(data, d)
    pdf = doc.build()
    obs.artifact('in.pdf', pdf)
    obs.artifact('content', data)
    mach = refint.Machine(res)
    want = mach.run(prog)
    got = lib.items(pdf)
    dif = refint.compare(want, got, lib)
    if dif:
        dif2 = refint.compare(refint.Machine(res, q_leaks=True).run(prog), got, lib)
        dif = dif2 and '%s (or, with line width and colours left by Q: %s)' % (dif, dif2)
    stats(want, obs, 0)
    obs.count('left_out', mach.skipped)
    if any(w['t'] == 'form' and w['items'] for w in want):
        obs.nontrivial(pdf)
    if dif:
        raise Violation(dif)


def doc_get(doc, v):
    return doc.objs[v.num][1] if isinstance(v, Ref) else v


def stats(items, obs, level):
    for w in items:
        if level:
            obs.count('in_form')
        if w['t'] == 'form':
            obs.count('invocations')
            if level:
                obs.count('nested')
            obs.peak('depth', level + 1)
            stats(w['items'], obs, level + 1)
