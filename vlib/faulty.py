"""Faulty documents of every kind, built from complete valid ones."""
import zlib

from . import docgen, mutate, hostile, proggen, codecs, refint, harness
from .crypt import Enc
from .pdfgen import Name, Raw, Ref, Stream, Writer

KINDS = ('entry', 'entry', 'key', 'key', 'key', 'entries', 'content', 'content', 'bytes', 'bytes', 'data', 'data', 'file', 'trailer', 'crypt', 'both', 'string')
_null = harness.Obs()


def some_font(r, doc, name):
    from checks import c16, c17
    k = r.randrange(6)
    if k == 0:
        return proggen.rand_font(r, doc, name)
    if k == 1:
        return hostile.hostile_font(r, doc, name)
    if k == 2:
        return c17.simple(r, doc, name, _null)
    if k == 3:
        kind, m, spec, enc, width, s, hidden = c16.font(r, doc, _null)
        return refint.Font(name, doc.add(spec), {}, 500, -200, 1000, lambda c: 'x')
    f = c17.composite(r, doc, name, _null)
    if f.nbytes != 1:
        f.nbytes = 2
    return f


class FWriter(Writer):
    """Faults in the dictionaries and data the writer itself makes."""
    r = None
    what = ()

    def emit(self, num, gen, obj, encrypt=True, style=None):
        r = self.r
        if isinstance(obj, Stream) and obj.attrs.get('Type') in (Name('XRef'), Name('ObjStm')) and r.random() < 0.7:
            obj = mutate.copy(obj)
            for _ in range(r.choice((1, 1, 2))):
                if r.random() < 0.25:
                    if obj.attrs.get('Filter') is not None:
                        try:
                            obj.data = zlib.compress(mutate.blur(r, zlib.decompress(obj.data)))
                        except zlib.error:
                            pass
                    else:
                        obj.data = mutate.blur(r, obj.data)
                else:
                    k = r.choice([x for x in obj.attrs])
                    if r.random() < 0.2:
                        del obj.attrs[k]
                    elif isinstance(obj.attrs[k], list) and obj.attrs[k] and r.random() < 0.7:
                        obj.attrs[k] = list(obj.attrs[k])
                        obj.attrs[k][r.randrange(len(obj.attrs[k]))] = mutate.value(r, list(range(1, num + 1)))
                    else:
                        obj.attrs[k] = mutate.value(r, list(range(1, num + 1)))
        return Writer.emit(self, num, gen, obj, encrypt, style)


def extras(r, doc):
    """Destinations, encoded streams, images."""
    from checks import c19
    kids = []
    for j in range(r.choice((0, 1, 3))):
        a, b = b'n%d' % (2 * j), b'n%d' % (2 * j + 1)
        kids.append(doc.add({'Names': [a, [doc.kids[0], Name('Fit')], b, {'D': [doc.kids[0], Name('Fit')]}], 'Limits': [a, b]}))
    if kids:
        doc.catalog['Names'] = {'Dests': doc.add({'Kids': list(kids)})}
    for _ in range(r.choice((0, 1, 2))):
        data = r.randbytes(r.choice((0, 5, 60)))
        f = r.choice(('FlateDecode', 'LZWDecode', 'ASCII85Decode', 'ASCIIHexDecode', 'RunLengthDecode', 'CCITTFaxDecode', 'DCTDecode', 'JPXDecode', 'JBIG2Decode', 'Crypt'))
        a = {'Filter': Name(f)}
        if f == 'FlateDecode':
            if r.random() < 0.5:
                colors, cols, bpc = r.choice((1, 3)), r.choice((1, 7)), r.choice((1, 8, 16))
                n = (colors * cols * bpc + 7) // 8
                data = codecs.png_encode((data + bytes(n))[:max(n, len(data) // n * n)], colors, cols, bpc, lambda i: r.randrange(5))
                a['DecodeParms'] = {'Predictor': r.choice((10, 12, 15)), 'Colors': colors, 'Columns': cols, 'BitsPerComponent': bpc}
            data = zlib.compress(data)
        elif f == 'LZWDecode':
            data = codecs.lzw(data, r)
            a['DecodeParms'] = [{'EarlyChange': 1}]
        elif f == 'ASCII85Decode':
            data = codecs.a85(data, r)
        elif f == 'ASCIIHexDecode':
            data = codecs.ahx(data, r)
        elif f == 'RunLengthDecode':
            data = codecs.rl(data, r)
        elif f == 'CCITTFaxDecode':
            w = r.choice((1, 9, 64))
            data = codecs.g4_encode([[r.random() < 0.4 for _ in range(w)] for _ in range(4)], w)
            a['DecodeParms'] = {'K': -1, 'Columns': w, 'Rows': 4, 'BlackIs1': r.random() < 0.5, 'EncodedByteAlign': r.random() < 0.3}
        if r.random() < 0.3:
            # a chain; filters without parameters have null there
            data = codecs.ahx(data, r)
            p = a.get('DecodeParms')
            a['Filter'] = [Name('ASCIIHexDecode'), a['Filter']]
            a['DecodeParms'] = [None, p[0] if isinstance(p, list) else p]
        doc.add(Stream(a, data))
    if not c19.JPEGS:
        c19.JPEGS.append((1, 1, 'DeviceGray', b'\xff\xd8\xff\xd9'))
    if r.random() < 0.3:
        c19.external(r, doc)


def base(r):
    out = docgen.rich(r, npages=r.choice((1, 2)), size=(3, 10), fontf=some_font, build=False)
    extras(r, out.doc)
    if r.random() < 0.2:
        # a deeper tree of pages
        doc = out.doc
        node = doc.add({'Type': Name('Pages'), 'Parent': Ref(doc.pages_num), 'Kids': list(doc.kids), 'Count': len(doc.kids), 'Rotate': 90})
        for k in doc.kids:
            doc.objs[k.num][1]['Parent'] = node
        doc.pages_attrs['Kids'] = [node]
    return out


def make(r, obs, kind=None, turn=None, move=0):
    """-> (pdf, password, kind)"""
    kind = kind or r.choice(KINDS)
    enc, pw = None, ''
    if kind == 'crypt' or r.random() < 0.1:
        pw = r.choice(('', 'pw'))
        enc = Enc(r, r.choice(('rc4-40', 'rc4', 'v4-rc4', 'v4-aes', 'v5-aes')), pw)
    doc = base(r).doc
    if r.random() < move:
        # values in objects of their own
        mutate.freeze(doc)
        sl = []
        for n in sorted(doc.objs):
            mutate.slots(doc.objs[n][1], sl)
        p = r.choice((0.02, 0.2, 1))
        for c, k in sl:
            if k is not None and not isinstance(c[k], (Ref, Raw, Stream)) and r.random() < p:
                c[k] = doc.add(c[k])
                obs.count('moved')
    if kind in ('entry', 'entries', 'both'):
        mutate.structure(r, doc, {'entry': 1, 'entries': r.choice((2, 5, 15)), 'both': 2}[kind], obs)
    if kind == 'key':
        mutate.structure(r, doc, 1, obs, {mutate.KEYS[turn % len(mutate.KEYS)] if turn is not None else r.choice(mutate.KEYS)})
    if kind == 'string':
        mutate.freeze(doc)
        sl = []
        for n, (g, o) in doc.objs.items():
            mutate.slots(o, sl)
        sl = [(c, k) for c, k in sl if k is not None and isinstance(c[k], bytes)]
        for c, k in r.sample(sl, min(len(sl), r.choice((1, 3)))):
            c[k] = mutate.string(r, c[k])
    if kind in ('content', 'both'):
        mutate.faulty_content(r, doc, r.choice((1, 2)))
    if kind == 'data':
        ss = [s for s in mutate.streams(doc) if not mutate.is_content(s) or r.random() < 0.1] or mutate.streams(doc)
        for _ in range(r.choice((1, 2, 4))):
            s = r.choice(ss)
            if s.attrs.get('Filter') == Name('FlateDecode') and r.random() < 0.8:
                try:
                    s.data = zlib.compress((mutate.content if r.random() < 0.3 else mutate.blur)(r, zlib.decompress(s.data)))
                except zlib.error:
                    pass
            else:
                s.data = (mutate.content if r.random() < 0.3 else mutate.blur)(r, s.data)
    if kind == 'crypt':
        t = mutate.lists(enc.trailer())
        sl = []
        mutate.slots(t, sl)
        for _ in range(r.choice((1, 1, 2))):
            c, k = r.choice([s for s in sl if s[1] is not None])
            v = mutate.value(r, sorted(doc.objs))
            try:
                if isinstance(c[k], bytes) and r.random() < 0.5:
                    v = r.choice((c[k][:-1], c[k] + b'x', mutate.blur(r, c[k]), c[k][:16]))
                if r.random() < 0.15:
                    c.pop(k)
                else:
                    c[k] = v
            except (KeyError, IndexError):
                pass
        enc.trailer = lambda: t
    if kind == 'trailer':
        for _ in range(r.choice((1, 1, 2))):
            doc.trailer[r.choice(('Prev', 'Prev', 'XRefStm', 'Encrypt', 'ID', 'Info', 'Size', 'Root', 'Type'))] = mutate.value(r, sorted(doc.objects()))
    layout = r.choice(('table', 'table', 'stream', 'hybrid')) if kind != 'file' else r.choice(('stream', 'stream', 'hybrid'))
    kw = {}
    if layout != 'table' and r.random() < 0.5 and enc is None or kind == 'file' and enc is None:
        kw['packed'] = [n for n, (g, o) in doc.objects().items() if not isinstance(o, Stream)]
    if kind == 'file':
        kw['writer'] = type('W', (FWriter,), {'r': r})
    pdf = doc.build(rng=r, layout=layout, enc=enc, **kw)
    if kind in ('bytes', 'both'):
        pdf = mutate.blur(r, pdf)
    obs.count('kind-' + kind)
    return pdf, pw, kind


def use(r, obs, pdf, pw, bad):
    from .use import Use
    u = Use(obs, bad)
    u.document(pdf, pw)
    ignore = r.random() < 0.6
    u.pages(pdf, pw, ignore_bad_chars=ignore, check_extractable=False)
    u.convert(pdf, r.choice(('json', 'xml', 'html', 'text', 'yaml')), pw, ignore_bad_chars=ignore, check_extractable=False)
