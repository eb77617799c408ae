"""Splitting page content over several streams changes nothing."""
import zlib
from vlib.harness import Violation
from vlib.pdfgen import Doc, Style, Name, Stream
from vlib import lib, refint
from vlib.proggen import Gen, rand_font, simple_font, font_res, colour_spaces, image_xobj, inline_image, tounicode

ID = 'C20'
LEVEL = 'exploration'
RULE = ('random content programs written once as one stream and several times divided at token boundaries (random cuts, every token its own stream, empty '
        'and blank parts, comments up to the end of a part, encoded parts, the same stream listed again); reported objects compared with the single-stream page; counted by distinct division')
ASSUMPTIONS = ['an inline image from BI to EI counts as one token']
CASES = {'quick': 1500, 'thorough': 25000}
MIN = {'divisions': 8000, 'parts': 80000, 'empty_parts': 8000, 'every_token': 1000, 'inline_images': 800, 'items': 4000, 'long_token': 30, 'repeated_parts': 1500}


def case(r, i, tier, obs):
    doc = Doc()
    fonts = [rand_font(r, doc, 'F%d' % j) for j in range(r.choice((0, 1, 2)))]
    sd, sm = colour_spaces(r, doc)
    xo = {}
    if r.random() < 0.4:
        xo['Im0'] = image_xobj(r, doc)[0]
    g = Gen(r, fonts=fonts, spaces=sm, xobjs=list(xo), inline=inline_image, maxtext=6)
    prog = g.run(r.choice((2, 6, 15, 30)))
    if fonts and r.random() < 0.05:
        # a token longer than the read block
        f = fonts[0]
        g.add('BT')
        g.add('Tf', Name(f.name), 1)
        from vlib.proggen import font_string
        g.add('Tj', font_string(r, f, r.choice((2048, 4096, 5000))))
        g.add('ET')
        obs.count('long_token')
    style = Style(r, r.choice((0, 0, 0.5)))
    toks = list(refint.tokens(prog, style))
    if not toks:
        toks = [b'n']
    res = {'Font': font_res(fonts), 'ColorSpace': sd, 'XObject': xo}
    one = refint.Style(r, 0.2).join(toks) + b'\n'
    doc.page(one, res)
    divisions = []
    for k in range(r.choice((3, 6, 8))):
        if k == 0 and len(toks) < 400:
            cuts = list(range(1, len(toks)))
            obs.count('every_token')
        else:
            m = min(len(toks) - 1, r.choice((1, 1, 2, 5, 20)))
            cuts = sorted(r.sample(range(1, len(toks)), m)) if m > 0 else []
        parts = []
        last = 0
        for c in cuts + [len(toks)]:
            p = style.join(toks[last:c]) if c > last else b''
            last = c
            if r.random() < 0.3 and p[-3:-1] != b'I\r':
                p = p.rstrip(b'\r\n ')
            q = r.random()
            if q < 0.1:
                p += (b' ' if p.endswith(b'EI') else b'') + b'%tail of a part'
            elif q < 0.2:
                p += r.choice((b'\n', b' ', b'\r\n'))
            elif q < 0.25:
                p = b' ' * 4090 + p
            parts.append(p)
            if r.random() < 0.12:
                parts.append(r.choice((b'', b'', b' ', b'\n%nothing\n', b'%c')))
                obs.count('empty_parts')
        if r.random() < 0.1:
            parts.insert(0, b'')
            obs.count('empty_parts')
        streams = []
        for p in parts:
            if r.random() < 0.15:
                streams.append(Stream({'Filter': Name('FlateDecode')}, zlib.compress(p)))
            elif r.random() < 0.08:
                streams.append(Stream({'Filter': Name('ASCIIHexDecode')}, p.hex().encode() + b'>'))
            else:
                streams.append(p)
        divisions.append(len(parts))
        same = {} if r.random() < 0.4 else None
        refs = []
        for s in streams:
            if same is not None and isinstance(s, bytes) and s in same:
                # the same stream again
                refs.append(same[s])
                obs.count('repeated_parts')
                continue
            refs.append(doc.add(s if isinstance(s, Stream) else Stream({}, s)))
            if same is not None and isinstance(s, bytes):
                same[s] = refs[-1]
        doc.page(None, res, Contents=doc.add(refs) if r.random() < 0.3 else refs)
        obs.count('divisions')
        obs.count('parts', len(parts))
        obs.nontrivial(b'|'.join(parts))
    pdf = doc.build()
    obs.artifact('in.pdf', pdf)
    obs.artifact('content', one)
    views = []
    for p in lib.interp(pdf):
        views.append([lib.item_view(x) for x in p])
    if len(views) != len(divisions) + 1:
        raise Violation('expected %d pages, got %d' % (len(divisions) + 1, len(views)))
    obs.count('items', len(views[0]))
    obs.count('inline_images', sum(1 for op, a in prog if op == 'BI'))
    # the single stream is what the program says (known leak of Q aside)
    for n, v in enumerate(views[1:]):
        if v != views[0]:
            raise Violation('page %d, content in %d streams: %s' % (n + 2, divisions[n], lib.diff(views[0], v, 'items') or 'differs'))
