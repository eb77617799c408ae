"""Predictors are undone exactly."""
from vlib.harness import Violation
from vlib.pdfgen import Stream, Name, Ref, Writer, Revision
from vlib import lib, codecs

ID = 'C07'
LEVEL = 'exploration'
RULE = ('random sample data in random geometry (colours 1-8, 1/2/4/8/16 bits, 1-300 columns, 0-20 rows), each row with a random PNG filter type, '
        'compressed by Flate or LZW; decoded bytes compared with the source; non-trivial when at least one row is not type None, counted by distinct streams')
ASSUMPTIONS = ['padding bits of a row are data like any other, as in PNG']
CASES = {'quick': 6000, 'thorough': 80000}
MIN = {'streams': 20000, '#geometry': 100, 'row0': 10000, 'row1': 10000, 'row2': 10000, 'row3': 10000, 'row4': 10000, 'predictor1': 3000, 'xref_streams': 1500}


def case(r, i, tier, obs):
    objs = {1: {'Type': Name('Catalog')}}
    model = {}
    for m in range(2, 6):
        colors = r.choice((1, 1, 2, 3, 4, 5, 8))
        bpc = r.choice((1, 2, 4, 8, 8, 16))
        columns = r.choice((1, 2, 3, 5, 8, 17, r.randrange(1, 300)))
        rowlen = (colors * columns * bpc + 7) // 8
        rows = r.choice((0, 1, 2, 3, 7, 20))
        k = r.random()
        n = rows * rowlen
        if k < 0.4:
            data = r.randbytes(n)
        elif k < 0.6:
            data = bytes(r.choice((0, 255, 1, 254, 128)) for _ in range(n))
        else:
            data = bytes((x * r.choice((1, 1, 3)) + x // 7) & 255 for x in range(n))
        only = r.choice((None, None, 0, 1, 2, 3, 4))
        types = [only if only is not None else r.randrange(5) for _ in range(rows)]
        params = {}
        pred = r.choice((10, 11, 12, 13, 14, 15, 15, 1, None))
        if pred is not None:
            params['Predictor'] = pred
        if pred in (None, 1):
            body = data
            obs.count('predictor1')
        else:
            body = codecs.png_encode(data, colors, columns, bpc, lambda j: types[j])
            for t in types:
                obs.count('row%d' % t)
        if colors != 1 or r.random() < 0.4:
            params['Colors'] = colors
        if bpc != 8 or r.random() < 0.4:
            params['BitsPerComponent'] = bpc
        if columns != 1 or r.random() < 0.4:
            params['Columns'] = columns
        f = r.choice(('FlateDecode', 'FlateDecode', 'LZWDecode'))
        enc = codecs.flate(body, r) if f == 'FlateDecode' else codecs.lzw(body, r)
        attrs = {'Filter': Name(f), 'DecodeParms': params}
        if r.random() < 0.2:
            enc = codecs.ahx(enc)
            attrs = {'Filter': [Name('ASCIIHexDecode'), Name(f)], 'DecodeParms': [None, params]}
        objs[m] = Stream(attrs, enc)
        model[m] = data
        obs.count('streams')
        obs.distinct('geometry', (colors, bpc, min(columns, 20)))
        if any(types) and pred not in (None, 1):
            obs.nontrivial((enc, repr(params)))
    w = Writer()
    w.max_num = max(objs)
    layout = r.choice(('table', 'stream'))
    w.revision(Revision({a: (0, v) for a, v in objs.items()}, layout=layout, trailer={'Root': Ref(1)},
                        xref_pred=r.random() < 0.5), r)
    if layout == 'stream':
        obs.count('xref_streams')
    pdf = w.bytes()
    obs.artifact('in.pdf', pdf)
    doc = lib.open_doc(pdf, fallback=False)
    for m, data in model.items():
        got = doc.getobj(m).get_data()
        if got != data:
            raise Violation('%r: got %d bytes %s, encoded %d bytes %s' % (objs[m].attrs, len(got), lib.short(got), len(data), lib.short(data)))
    if i < 2:
        obs.sample(repr([o.attrs for o in list(objs.values())[1:]]))
