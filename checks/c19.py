"""Images are reported once with their true geometry and data, and exported intact."""
import io
import os
import shutil
import struct
import zlib
from vlib.harness import Violation, tmpdir
from vlib.pdfgen import Doc, Style, Name, Stream, Ref
from vlib import lib, refint, crypt
from vlib.proggen import Gen, rand_matrix, inline_image

ID = 'C19'
LEVEL = 'exploration'
RULE = ('pages painting random external images (all depths and device spaces, masks, JPEG, encoded, indirect attributes, some in encrypted files) and inline images '
        '(short and full keys, data full of look-alikes of its end); reported attributes and data compared with the source, exports decoded by an independent '
        'bitmap reader; counted by distinct page')
ASSUMPTIONS = ['inline image data ends at the first EI followed by white space, a line end before EI is not data',
               'images without Decode arrays; a 4-component JPEG is exported as an RGB JPEG of the same size']
CASES = {'quick': 5000, 'thorough': 70000}
MIN = {'images': 8000, 'inline': 2500, 'lookalike_data': 500, 'exports': 5000, 'bitmaps': 2500, 'jpegs': 500, 'pixels': 200000, 'encrypted': 200, 'rotated_matrix': 300}
JPEGS = []


def setup():
    from PIL import Image
    import random
    r = random.Random(5)
    for mode, cs in (('L', 'DeviceGray'), ('RGB', 'DeviceRGB'), ('CMYK', 'DeviceCMYK')):
        for w, h in ((1, 1), (8, 8), (17, 9)):
            im = Image.frombytes(mode, (w, h), r.randbytes(w * h * {'L': 1, 'RGB': 3, 'CMYK': 4}[mode]))
            f = io.BytesIO()
            im.save(f, 'JPEG')
            JPEGS.append((w, h, cs, f.getvalue()))


def external(r, doc):
    w, h = r.choice((1, 2, 3, 7, 8, 9, 31, 33, r.randrange(1, 60))), r.choice((1, 2, 5, 16, r.randrange(1, 40)))
    if r.random() < 0.03:
        w, h = r.choice((1023, 2048, 4095, 4096, 4097, 5001, 9999)), r.choice((1, 2, 3))
        if r.random() < 0.3:
            w, h = h, w
    kind = r.choice(('raw', 'raw', 'raw', 'mask', 'jpeg'))
    d = {'Type': Name('XObject'), 'Subtype': Name('Image')}
    mask = False
    filters = []
    if kind == 'jpeg':
        w, h, cs, data = r.choice(JPEGS)
        bpc, spec = 8, Name(cs)
        filters.append('DCTDecode')
        model = (cs, 'jpeg')
    elif kind == 'mask':
        bpc, spec, mask = 1, None, True
        data = r.randbytes(h * ((w + 7) // 8))
        model = ('DeviceGray', 'bits')
        d['ImageMask'] = True
    else:
        cs, n, bpc = r.choice((('DeviceGray', 1, 8), ('DeviceGray', 1, 8), ('DeviceRGB', 3, 8), ('DeviceRGB', 3, 8), ('DeviceCMYK', 4, 8), ('DeviceGray', 1, 1),
                               ('DeviceGray', 1, 1), ('DeviceGray', 1, 4), ('DeviceGray', 1, 2), ('DeviceGray', 1, 16), ('DeviceRGB', 3, 4), ('DeviceRGB', 3, 1), ('Indexed', 1, 8)))
        spec = [Name('Indexed'), Name('DeviceRGB'), 255, doc.add(Stream({}, r.randbytes(768)))] if cs == 'Indexed' else Name(cs)
        data = r.randbytes(h * ((w * n * bpc + 7) // 8))
        if r.random() < 0.1:
            data = b'\r\n' * (len(data) // 2) + b'\n' * (len(data) % 2)
        model = (cs, 'bits')
    raw = data
    for f in r.choice(((), (), ('FlateDecode',), ('ASCIIHexDecode',), ('ASCIIHexDecode', 'FlateDecode'))):
        raw = zlib.compress(raw) if f == 'FlateDecode' else raw.hex().encode() + b'>'
        filters.insert(0, f)
    d.update({'Width': w, 'Height': h})
    if bpc != 1 or not mask or r.random() < 0.5:
        d['BitsPerComponent'] = bpc
    shown = spec
    if spec is not None:
        if isinstance(spec, Name) and r.random() < 0.15:
            spec = [spec]
        d['ColorSpace'] = spec
        shown = spec if isinstance(spec, list) else [spec]
    else:
        shown = [None]
    if filters:
        d['Filter'] = Name(filters[0]) if len(filters) == 1 and r.random() < 0.7 else [Name(f) for f in filters]
    for k in ('Width', 'Height', 'BitsPerComponent', 'ColorSpace', 'ImageMask'):
        if k in d and r.random() < 0.07:
            d[k] = doc.add(d[k])
    im = refint.Image(w, h, bpc, lib.expect(shown), data, mask)
    im.kind = model
    return doc.add(Stream(d, raw)), im


def case(r, i, tier, obs):
    doc = Doc()
    xo, xm = {}, {}
    for j in range(r.choice((0, 1, 2, 4))):
        xo['Im%d' % j], xm['Im%d' % j] = external(r, doc)

    def inline(r):
        im, b = inline_image(r)
        spec = im.cs
        im.kind = ({'G': 'DeviceGray', 'RGB': 'DeviceRGB'}.get(spec.n.decode(), spec.n.decode()) if isinstance(spec, Name)
                   else 'DeviceGray' if im.mask else 'Indexed', 'bits')
        im.cs = lib.expect(spec if isinstance(spec, list) else [spec])
        obs.count('inline')
        if any(x in im.data for x in (b'EI', b'\nE', b'\n')):
            obs.count('lookalike_data')
        return im, b
    g = Gen(r, xobjs=list(xo), colours=False, inline=inline, qdepth=3)
    for _ in range(r.choice((1, 2, 4, 8))):
        k = r.random()
        if k < 0.3:
            m = rand_matrix(r)
            g.add('cm', *m)
            if m[1]:
                obs.count('rotated_matrix')
        elif k < 0.4:
            g.save()
        elif k < 0.5 and g.saved:
            g.restore()
        if g.xobjs and r.random() < 0.6:
            g.add('Do', Name(r.choice(g.xobjs)))
        else:
            g.add('BI', *inline(r))
        if r.random() < 0.1:
            g.path()
    while g.saved:
        g.restore()
    prog = g.prog
    data = refint.content(prog, Style(r, r.choice((0, 0, 0.4))))
    doc.page(data, {'XObject': xo})
    enc = None
    if xo and r.random() < 0.12:
        enc = crypt.Enc(r, r.choice(('rc4', 'v4-aes', 'v5-aes')), '', 'owner')
        obs.count('encrypted')
    pdf = doc.build(enc=enc)
    obs.artifact('in.pdf', pdf)
    obs.artifact('content', data)
    want = refint.Machine(refint.Res({}, {}, xm)).run(prog)
    obs.nontrivial(data)
    streaming = r.random() < 0.3
    if streaming:
        # exported while the page is being read
        path = None
        out = folder(i)
        try:
            got, files = [], []
            for p in lib.interp(pdf):
                for x in p:
                    if isinstance(x, lib.LTImage):
                        files.append(x.save_image(out))
                    x = None
            check_exports(want, files, out, obs, unique=False)
        finally:
            shutil.rmtree(out)
        got = lib.items(pdf)
        d = refint.compare(want, got, lib, colors=False)
        if d:
            raise Violation(d)
        obs.count('images', sum(1 for w in want if w['t'] == 'image'))
        return
    got = lib.items(pdf)
    first = r.random() < 0.5
    if first:
        # data and attributes are looked at before the export
        d = refint.compare(want, got, lib, colors=False)
        if d:
            raise Violation(d)
    out = folder(i)
    try:
        files = []
        n = 0
        for x in got:
            if isinstance(x, lib.LTImage):
                n += 1
                files.append(x.save_image(out, 'img%d' % n))
        check_exports(want, files, out, obs)
    finally:
        shutil.rmtree(out)
    d = refint.compare(want, got, lib, colors=False)
    if d:
        raise Violation(('after export: ' if first else '') + d)
    obs.count('images', sum(1 for w in want if w['t'] == 'image'))


def folder(i):
    p = os.path.join(tmpdir(), 'exp%d' % i)
    os.mkdir(p)
    return p


def check_exports(want, files, out, obs, unique=True):
    ims = [w['img'] for w in want if w['t'] == 'image']
    if len(ims) != len(files):
        raise Violation('%d images painted, %d reported' % (len(ims), len(files)))
    here = {os.path.join(out, f) for f in os.listdir(out)}
    if not set(files) <= here or len(here) != len(set(files)):
        raise Violation('exported %r but the folder holds %r' % (files, sorted(here)))
    if unique and len(here) != len(files):
        raise Violation('%d exports left %d files' % (len(files), len(here)))
    for im, f in zip(ims, files):
        obs.count('exports')
        with open(f, 'rb') as fp:
            b = fp.read()
        cs, kind = im.kind
        ext = os.path.splitext(f)[1]
        obs.distinct('exports', (cs, kind, im.bpc, ext))
        if kind == 'jpeg':
            obs.count('jpegs')
            if ext != '.jpg':
                raise Violation('a JPEG image was exported as %r' % ext)
            if cs != 'DeviceCMYK':
                if b != im.data:
                    raise Violation('exported JPEG data differs: %s instead of %s' % (lib.short(b), lib.short(im.data)))
            else:
                from PIL import Image
                with Image.open(io.BytesIO(b)) as pic:
                    pic.load()
                    if pic.size != (im.w, im.h) or pic.mode != 'RGB':
                        raise Violation('exported JPEG is %r %r for a %dx%d image' % (pic.size, pic.mode, im.w, im.h))
            continue
        bitmap = im.bpc == 1 and cs in ('DeviceGray',) or im.bpc == 8 and cs in ('DeviceGray', 'DeviceRGB')
        if bitmap and ext != '.bmp':
            raise Violation('%s image with %d bits exported as %r' % (cs, im.bpc, ext))
        if ext == '.bmp':
            obs.count('bitmaps')
            w, h, rows = read_bmp(b)
            exp = pixels(im, cs)
            if (w, h) != (im.w, im.h):
                raise Violation('exported bitmap is %dx%d for a %dx%d image' % (w, h, im.w, im.h))
            if exp is not None:
                obs.count('pixels', w * h)
                for y in range(h):
                    if rows[y] != exp[y]:
                        raise Violation('row %d of the exported bitmap (%s, %d bits): %s instead of %s' % (y, cs, im.bpc, lib.short(rows[y]), lib.short(exp[y])))
        elif b != im.data:
            raise Violation('exported data differs: %s instead of %s' % (lib.short(b), lib.short(im.data)))


def pixels(im, cs):
    rows = []
    n = {'DeviceGray': 1, 'DeviceRGB': 3}.get(cs)
    if n is None:
        return None
    step = (im.w * n * im.bpc + 7) // 8
    for y in range(im.h):
        row = im.data[y * step:(y + 1) * step]
        if im.bpc == 1:
            v = [255 * (row[x // 8] >> (7 - x % 8) & 1) for x in range(im.w)]
        else:
            v = list(row)
        rows.append([(v[x],) * 3 for x in range(im.w)] if n == 1 else [tuple(v[3 * x:3 * x + 3]) for x in range(im.w)])
    return rows


def read_bmp(b):
    """Independent reader of uncompressed bitmaps: -> width, height, rows of (r, g, b)."""
    if b[:2] != b'BM':
        raise Violation('not a bitmap: %s' % lib.short(b[:20]))
    size, off = struct.unpack('<I4xI', b[2:14])
    hs, w, h, planes, bits, comp, ds, _, _, ncol, _ = struct.unpack('<IiiHHIIiiII', b[14:54])
    if hs != 40 or planes != 1 or comp != 0 or bits not in (1, 8, 24):
        raise Violation('bitmap header: %r' % ((hs, planes, comp, bits),))
    if size != len(b):
        raise Violation('bitmap of %d bytes says it has %d' % (len(b), size))
    pal = []
    if bits < 24:
        n = ncol or 1 << bits
        for k in range(n):
            q = b[54 + 4 * k:58 + 4 * k]
            pal.append((q[2], q[1], q[0]))
    line = (w * bits + 31) // 32 * 4
    if off + line * h > len(b):
        raise Violation('bitmap of %dx%d, %d bits ends after %d bytes' % (w, h, bits, len(b)))
    rows = []
    for y in range(h):
        o = off + line * (h - 1 - y)
        row = b[o:o + line]
        if bits == 1:
            rows.append([pal[row[x // 8] >> (7 - x % 8) & 1] for x in range(w)])
        elif bits == 8:
            rows.append([pal[row[x]] for x in range(w)])
        else:
            rows.append([(row[3 * x + 2], row[3 * x + 1], row[3 * x]) for x in range(w)])
    return w, h, rows
