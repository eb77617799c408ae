"""CCITT Group 4 data decodes to the image that was encoded."""
from vlib.harness import Violation
from vlib.pdfgen import Stream, Name, Ref, Writer, Revision
from vlib import lib, codecs

ID = 'C08'
LEVEL = 'exploration'
RULE = ('random bitmaps (noise, stripes, blocks, shifted copies of the row above, long runs) through an independent T.6 encoder, with and without '
        'byte alignment, end-of-block code and BlackIs1; decoded bytes compared with the packed rows; non-trivial when some pixel is black, '
        'counted by distinct bitmaps; the coding modes used are counted')
ASSUMPTIONS = ['the encoder is checked against libtiff (Pillow) by run.py selftest']
CASES = {'quick': 4000, 'thorough': 50000}
MIN = {'images': 7000, 'rows': 40000, 'P': 20000, 'H': 50000, 'V0': 40000, 'V1': 8000, 'V2': 4000, 'V3': 2000, 'V-1': 8000, 'V-2': 4000, 'V-3': 3000,
       'long_run': 200, 'aligned': 1500, 'blackis1': 2500}


def bitmap(r):
    w = r.choice((1, 2, 3, 7, 8, 9, 16, 31, 64, 100, r.randrange(1, 200)))
    if r.random() < 0.08:
        w = r.choice((1728, 2560, 2561, 2623, 2624, 3000, 5200, 6000))
    h = r.randrange(0, 20) if w < 1000 else r.randrange(1, 5)
    rows = []
    k = r.randrange(6)
    for y in range(h):
        if k == 0:
            p = r.choice((0.1, 0.5, 0.9))
            row = [1 if r.random() < p else 0 for _ in range(w)]
        elif k == 1:
            row = []
            c = r.randrange(2)
            while len(row) < w:
                row += [c] * r.choice((1, 2, 3, 5, 20, 63, 64, 65, 300, 1792, 2559, 2560, 2600))
                c ^= 1
            row = row[:w]
        elif k in (2, 3) and rows:
            d = r.randrange(-4, 5)
            prev = rows[-1]
            row = [(prev[x - d] if 0 <= x - d < w else 0) for x in range(w)]
            if r.random() < 0.3 and w > 1:
                row[r.randrange(w)] ^= 1
        elif k == 4:
            row = [r.randrange(2)] * w
        else:
            a, b = sorted((r.randrange(w + 1), r.randrange(w + 1)))
            row = [1 if a <= x < b else 0 for x in range(w)]
        rows.append(row)
    return w, rows


def case(r, i, tier, obs):
    objs = {1: {'Type': Name('Catalog')}}
    model = {}
    for m in (2, 3):
        w, rows = bitmap(r)
        align = r.random() < 0.35
        black = r.random() < 0.5
        eofb = r.random() < 0.7
        modes = {}
        enc = codecs.g4_encode(rows, w, eofb=eofb, align=align, modes=modes)
        for k, v in modes.items():
            obs.count(k, v)
        params = {'K': r.choice((-1, -1, -1, -2))}
        if w != 1728 or r.random() < 0.5:
            params['Columns'] = w
        if align or r.random() < 0.2:
            params['EncodedByteAlign'] = align
        if black or r.random() < 0.2:
            params['BlackIs1'] = black
        if not eofb:
            params['EndOfBlock'] = False
            params['Rows'] = len(rows)
        elif r.random() < 0.3:
            params['Rows'] = len(rows)
        objs[m] = Stream({'Filter': Name(r.choice(('CCITTFaxDecode', 'CCF'))), 'DecodeParms': params}, enc)
        model[m] = (rows, w, codecs.pack_rows(rows, black))
        obs.count('images')
        obs.count('rows', len(rows))
        if align:
            obs.count('aligned')
        if black:
            obs.count('blackis1')
        if w > 2559:
            obs.count('long_run')
        if any(map(any, rows)):
            obs.nontrivial((w, repr(rows), align))
    wr = Writer()
    wr.revision(Revision({a: (0, v) for a, v in objs.items()}, trailer={'Root': Ref(1)}), r)
    pdf = wr.bytes()
    obs.artifact('in.pdf', pdf)
    doc = lib.open_doc(pdf)
    for m, (rows, w, want) in model.items():
        got = doc.getobj(m).get_data()
        if got != want:
            raise Violation('%r %dx%d: got %d bytes %s, expected %d bytes %s' % (
                objs[m].attrs, w, len(rows), len(got), lib.short(got), len(want), lib.short(want)))
    if i < 2:
        obs.sample(repr([o.attrs for o in list(objs.values())[1:]]))
