"""Ignoring bad characters affects only undecodable ones."""
import zlib
from vlib.harness import Violation
from vlib.pdfgen import Doc, Style, Name, Stream
from vlib import lib, refint
from vlib.proggen import Gen, rand_font, font_res, rand_matrix

ID = 'C23'
LEVEL = 'exploration'
RULE = ('random documents whose pages and nested forms mix decodable and undecodable codes in all font kinds, read in both modes; the items of the ignoring mode compared '
        'with an independent reference interpreter (empty text for undecodable codes, everything else in place), the default mode compared with the ignoring one on pages '
        'without undecodable codes and required to raise UnicodeNotDefined on the others; non-trivial when an undecodable code is shown, counted by distinct document')
ASSUMPTIONS = ['line width and colours are not compared (C13)']
CASES = {'quick': 2500, 'thorough': 40000}
MIN = {'pages': 3000, 'bad_pages': 700, 'good_pages': 1500, 'bad_chars': 2500, 'bad_in_form': 300, 'bad_only_in_form': 60, 'bad_nested': 40, 'good_after_bad': 200,
       'simple': 2000, 'type3': 300, 'cid': 500, 'uninvoked_bad_form': 100, 'raised': 700}


def bad_font(r, doc, name, p):
    f = rand_font(r, doc, name)
    if f.nbytes == 2:
        codes = list(range(256, 300)) + [0x4141, 0xffff]
    elif f.fontname is None:
        codes = [c for c in range(1, 32)]
    else:
        codes = [c for c in range(1, 32)]
    u = f.uni
    bad = set(codes)
    f.uni = lambda c: '' if c in bad else u(c)
    f.isbad = lambda c: c in bad
    f.bad = (p, codes) if p else None
    return f


def bads(items):
    """undecodable characters painted by these items: (here, in forms)"""
    here = inside = 0
    for w in items:
        if w['t'] == 'text':
            here += sum(1 for s in w['shows'] for c in s['chars'] if c[0] == '')
        elif w['t'] == 'form':
            a, b = bads(w['items'])
            inside += a + b
    return here, inside


def case(r, i, tier, obs):
    doc = Doc()
    style = Style(r, 0)
    probs = r.choice(((0, 0, .3), (.3, .3, .3), (0, .4, .1)))

    def resources(level, pfonts, pform):
        fonts = [bad_font(r, doc, 'F%d' % j, pfonts) for j in range(r.choice((1, 1, 2)))]
        for f in fonts:
            obs.count('cid' if f.nbytes == 2 else 'simple' if f.fontname else 'type3')
        xo, xm = {}, {}
        for j in range(r.choice((0, 0, 1, 2)) if level < 3 else 0):
            xo['Fm%d' % j], xm['Fm%d' % j] = form(level + 1, pform)
        return {'Font': font_res(fonts), 'XObject': xo}, refint.Res({f.name: f for f in fonts}, {}, xm), fonts

    def program(fonts, xobjs, n):
        g = Gen(r, fonts=fonts, xobjs=xobjs, maxtext=6, colours=False)
        if xobjs and r.random() < 0.5:
            g.add('Do', Name(r.choice(xobjs)))
        return g.run(n)

    def form(level, p):
        d, res, fonts = resources(level, r.choice(probs) if p else 0, p)
        prog = program(fonts, list(res.xobjs), r.choice((2, 5, 10)))
        bbox = (0, 0, 300, 400)
        m = rand_matrix(r) if r.random() < 0.5 else None
        a = {'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': list(bbox), 'Resources': d}
        if m:
            a['Matrix'] = list(m)
        data = refint.content(prog, style)
        if r.random() < 0.3:
            data = zlib.compress(data)
            a['Filter'] = Name('FlateDecode')
        return doc.add(Stream(a, data)), refint.Form(prog, bbox, m, res)

    wants = []
    for k in range(r.choice((1, 2, 3))):
        d, res, fonts = resources(0, r.choice(probs), r.random() < 0.6)
        if r.random() < 0.2:
            # never invoked, so its undecodable characters are nobody's business
            d['XObject']['Unused'] = form(3, 1)[0]
            obs.count('uninvoked_bad_form')
        prog = program(fonts, list(res.xobjs), r.choice((2, 6, 12)))
        doc.page(refint.content(prog, style), d)
        wants.append(refint.Machine(res).run(prog))
    pdf = doc.build()
    obs.artifact('in.pdf', pdf)
    ign = lib.pages(pdf, ignore_bad_chars=True)
    if len(ign) != len(wants):
        raise Violation('expected %d pages, got %d' % (len(wants), len(ign)))
    anybad = False
    for k, (want, (_, got)) in enumerate(zip(wants, ign)):
        dif = refint.compare(want, got, lib, colors=False)
        if dif:
            raise Violation('ignoring bad characters, page %d: %s' % (k, dif))
    prev = False
    for k, page in enumerate(lib.interp(pdf, name='d.pdf')):
        obs.count('pages')
        here, inside = bads(wants[k])
        obs.count('bad_chars', here + inside)
        obs.count('bad_in_form', inside)
        got = []
        err = None
        try:
            for it in page:
                got.append(it)
        except lib.ex.UnicodeNotDefined as e:
            err = e
        if here or inside:
            anybad = True
            obs.count('bad_pages')
            if inside and not here:
                obs.count('bad_only_in_form')
            if any(w['t'] == 'form' and bads(w['items'])[1] for w in wants[k]):
                obs.count('bad_nested')
            if err is None:
                raise Violation('page %d shows %d undecodable characters and none was reported' % (k, here + inside))
            obs.count('raised')
        else:
            obs.count('good_pages')
            if prev:
                obs.count('good_after_bad')
            if err is not None:
                raise Violation('page %d shows no undecodable character: %r' % (k, err))
            a = [lib.item_view(x) for x in ign[k][1]]
            b = [lib.item_view(x) for x in got]
            if a != b:
                raise Violation('page %d differs between the modes: %s' % (k, lib.diff(a, b)))
        # what came before the error is the same, too
        a = [lib.item_view(x) for x in ign[k][1]][:len(got)]
        b = [lib.item_view(x) for x in got]
        if a != b:
            raise Violation('page %d, before the error: %s' % (k, lib.diff(a, b)))
        prev = bool(here or inside)
    if anybad:
        obs.nontrivial(pdf)
