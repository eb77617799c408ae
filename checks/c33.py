"""Values given by reference mean the same as values given in place."""
import random
import re

from vlib import conv, faulty, harness, lib, mutate
from vlib.harness import Violation
from vlib.pdfgen import Name, Ref, Stream, Raw
from pdfmajor.parser.PDFStream import PDFStream, PDFObjRef
from pdfmajor.execptions import PDFMajorException
from pdfmajor.interpreter import LTXObject, LTTextBlock

ID = 'C33'
LEVEL = 'exploration'
RULE = ('complete valid documents (all font kinds, forms, images, filters, colour spaces, outlines, name trees, page trees) written twice: with values in place and with one, some or all '
        'of the values - dictionary entries, array elements, entries of stream dictionaries - moved to objects of their own; pages, items, outlines, destinations and stream data compared; '
        'non-trivial cases counted by distinct document and choice of values, every entry name counted')
ASSUMPTIONS = ['trailers and the dictionaries of cross-reference streams are left alone: their values have to be direct']
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'conversions': 350, 'destinations': 3500, 'items': 7000, 'moved': 50000, 'outline_entries': 1300, 'parts': 14000, 'single': 200, 'stream_data': 5000, 'empty_resources': 60}
FORMATS = ('json', 'xml', 'yaml', 'html', 'text')


def deref(x, doc, depth=0, seen=()):
    """Comparable value with references followed; pages, which lead to everything else, by kind only."""
    if depth > 8:
        return '...'
    while isinstance(x, PDFObjRef):
        if x.objid in seen:
            return '...'
        seen = seen + (x.objid,)
        try:
            x = doc.getobj(x.objid)
        except PDFMajorException as e:
            return type(e).__name__
    if isinstance(x, (list, tuple)):
        return [deref(v, doc, depth + 1, seen) for v in x]
    if isinstance(x, dict):
        if 'Contents' in x or 'MediaBox' in x or 'Kids' in x:
            return 'page'
        return {str(k): deref(v, doc, depth + 1, seen) for k, v in x.items() if k not in ('Parent', 'P')}
    if isinstance(x, PDFStream):
        try:
            d = x.get_data()
        except PDFMajorException as e:
            d = type(e).__name__
        return (deref({k: v for k, v in x.attrs.items() if k != 'Length'}, doc, depth + 1, seen), d)
    return lib.canon(x)


def fonts(items, doc):
    """What the fonts of a page say about themselves."""
    out = []
    for i in items:
        if isinstance(i, LTXObject):
            out += fonts(list(i), doc)
        elif isinstance(i, LTTextBlock):
            for b in i:
                f = b.font
                out.append((f.fontname, f.font_weight, f.italic_angle, f.ascent, f.descent, f.leading, f.flags, f.bbox, f.get_height(), f.get_width(),
                            {k: 'ref' if isinstance(v, PDFObjRef) else deref(v, doc) for k, v in f.descriptor.items() if 'FontFile' not in str(k)}))
    return out


NAME = re.compile(rb'(?<=src)(["=: ]+)[^",>]*')


def view(pdf, caching, fmt, streams):
    out = {}
    d = lib.open_doc(pdf, caching=caching)
    cat = d.catalog

    def part(name, f):
        try:
            out[name] = f()
        except PDFMajorException as e:
            out[name] = type(e).__name__
    part('outlines', lambda: [(lv, t, deref(de, d), deref(a, d)) for lv, t, de, a, se in d.get_outlines()])
    for n in (b'n0', b'n1', b'n3', 'd0', 'd1'):
        part('dest %r' % (n,), lambda: deref(d.get_dest(n), d))

    for n in streams:
        part('stream %d' % n, lambda: d.getobj(n).get_data())

    def page(k, p):
        def f():
            its = list(p)
            return [lib.item_view(i) for i in its] + fonts(its, d)
        part('page %d' % k, f)
        out['page %d box' % k] = (lib.r(p.width), lib.r(p.height))
    ps = []
    part('pages', lambda: ps.extend(lib.interp(pdf, ignore_bad_chars=True, caching=caching)))
    for k, p in enumerate(ps):
        page(k, p)
    out['pages'] = len(ps)
    if fmt:
        def conversion():
            return NAME.sub(rb'\1', conv.convert(pdf, fmt, ignore_bad_chars=True, caching=caching)).decode('latin-1')
        part('conversion to ' + fmt, conversion)
    return out


def case(r, i, tier, obs):
    doc = faulty.base(r).doc
    mutate.freeze(doc)
    if r.random() < 0.2:
        # forms with an empty list of resources
        for g, o in doc.objs.values():
            if isinstance(o, Stream) and o.attrs.get('Subtype') == Name('Form') and r.random() < 0.7:
                o.attrs['Resources'] = {}
                obs.count('empty_resources')
    caching = r.random() < 0.8
    lay = r.choice(('table', 'table', 'stream'))
    seed = r.random()
    fmt = r.choice(FORMATS) if r.random() < 0.25 else None
    streams = [n for n in doc.objs if isinstance(doc.objs[n][1], Stream)]
    a = view(doc.build(rng=random.Random(seed), layout=lay), caching, fmt, streams)
    # every place a value can be moved from
    sl = []
    for num in sorted(doc.objs):
        mutate.slots(doc.objs[num][1], sl)
    ok = []
    for c, k in sl:
        if k is None:
            continue
        v = c[k]
        if isinstance(v, (Ref, Raw, Stream)):
            continue
        ok.append((c, k))
    x = r.random()
    if x < 0.5:
        want = mutate.KEYS[i % len(mutate.KEYS)]
        hit = [s for s in ok if mutate.key(s) == want]
        if not hit:
            # every name there is with the same chance
            want = r.choice(sorted({mutate.key(s) for s in ok}, key=str))
            hit = [s for s in ok if mutate.key(s) == want]
        pick = hit if r.random() < 0.7 else [r.choice(hit)]
    elif x < 0.8:
        pick = r.sample(ok, min(len(ok), r.choice((1, 5, 20))))
    elif x < 0.9:
        pick = [s for s in ok if r.random() < 0.3]
    else:
        pick = ok
    for c, k in pick:
        c[k] = doc.add(c[k])
        obs.distinct('keys', mutate.key((c, k)))
        obs.count('moved')
    packed = ()
    if r.random() < 0.4:
        lay = 'stream'
        packed = [n for n, (g, o) in doc.objects().items() if not isinstance(o, Stream)]
    # without the cache every value costs a pass over its object stream
    pdf = doc.build(rng=random.Random(seed), layout=lay, packed=packed, nobjstm=1 if caching else 1 + len(packed) // 40)
    obs.artifact('pdf', pdf)
    try:
        b = view(pdf, caching, fmt, streams)
    except PDFMajorException as e:
        raise Violation('%s with %s by reference' % (harness.short_tb(e), sorted({mutate.key(s) for s in pick})[:20]))
    for n in a:
        obs.count('parts')
        if a[n] != b.get(n):
            if n.startswith('conversion') and isinstance(b[n], str) and '<PDFObjRef' in b[n]:
                # lists in lists of font descriptors are printed as they are
                obs.count('nested')
                continue
            raise Violation('%s differs with %s by reference: %s' % (n, sorted({mutate.key(s) for s in pick})[:20], lib.diff(a[n], b.get(n))))
    obs.nontrivial(pdf)
    if isinstance(a['outlines'], list):
        obs.count('outline_entries', len(a['outlines']))
    for n, v in a.items():
        if n.startswith('dest ') and not isinstance(v, str):
            obs.count('destinations')
        if n.startswith('stream ') and not isinstance(v, str):
            obs.count('stream_data')
        if n.startswith('page ') and isinstance(v, list):
            obs.count('items', len(v))
    if fmt and isinstance(a.get('conversion to ' + fmt), str):
        obs.count('conversions')
    if len(pick) == 1:
        obs.count('single')
