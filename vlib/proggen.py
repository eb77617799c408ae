"""Random fonts, resources and content programs."""
from .pdfgen import Name, Stream, Raw, Style, PLAIN, ser
from .refint import Font, Form, Image, Res, mul, IDENT

LETTERS = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'


def dy(r, lo, hi, q=8):
    """Dyadic number in [lo, hi]; an int now and then."""
    v = r.randrange(int(lo * q), int(hi * q) + 1) / q
    return int(v) if v == int(v) and r.random() < 0.8 else v


def tounicode(pairs, nbytes=2, r=None):
    """Plain ToUnicode CMap with bfchar entries."""
    out = [b'/CIDInit /ProcSet findresource begin 12 dict begin begincmap',
           b'/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def',
           b'/CMapName /Adobe-Identity-UCS def /CMapType 2 def',
           b'1 begincodespacerange <' + b'00' * nbytes + b'> <' + b'FF' * nbytes + b'> endcodespacerange']
    items = list(pairs)
    for k in range(0, len(items), 100):
        part = items[k:k + 100]
        out.append(b'%d beginbfchar' % len(part))
        for c, u in part:
            out.append(b'<%s> <%s>' % (c.to_bytes(nbytes, 'big').hex().encode(), u.encode('utf-16-be').hex().encode()))
        out.append(b'endbfchar')
    out.append(b'endcmap CMapName currentdict /CMap defineresource pop end end')
    return Stream({}, b'\n'.join(out))


def simple_font(r, doc, name, ncodes=None):
    """TrueType/Type1 font with an explicit descriptor."""
    first = r.choice((0, 32, 48, 65, 97))
    n = r.choice((0, 1, 10, 60, 256 - first))
    ws = [r.choice((0, 250, 500, 555, 600.5, 1000, r.randrange(0, 1500))) for _ in range(n)]
    missing = r.choice((0, 0, 300, 750))
    asc, desc = r.choice((700, 718.5, 900)), r.choice((-200, -207, 0, -250.25))
    bbox = r.choice(([0, 0, 0, 0], [-100, -220, 1000, 900], [-50, desc, 900, asc], None))
    fname = 'F%s%d' % (r.choice('abcd'), r.randrange(1000))
    d = {'Type': Name('FontDescriptor'), 'FontName': Name(fname), 'Flags': 32, 'Ascent': asc, 'Descent': desc,
         'ItalicAngle': 0, 'CapHeight': 700, 'StemV': 80}
    if bbox is not None:
        d['FontBBox'] = bbox
    if missing or r.random() < 0.3:
        d['MissingWidth'] = missing
    h = bbox[3] - bbox[1] if bbox else 0
    if h == 0:
        h = asc - desc
    spec = {'Type': Name('Font'), 'Subtype': Name(r.choice(('TrueType', 'Type1'))), 'BaseFont': Name(fname),
            'FirstChar': first, 'LastChar': first + n - 1, 'Widths': doc.add(ws) if r.random() < 0.5 else ws,
            'FontDescriptor': doc.add(d) if r.random() < 0.7 else d, 'Encoding': Name(r.choice(('WinAnsiEncoding', 'MacRomanEncoding')))}
    uni = chr
    if r.random() < 0.3:
        # the space and some letters trade places
        codes = [32] + r.sample(LETTERS[:52], r.randrange(1, 5))
        to = codes[1:] + codes[:1]
        diff = {a: b for a, b in zip(codes, to)}
        arr = []
        for a in sorted(diff):
            arr += [a, Name('space' if diff[a] == 32 else chr(diff[a]))]
        spec['Encoding'] = {'Type': Name('Encoding'), 'BaseEncoding': spec['Encoding'], 'Differences': arr}

        def uni(c):
            return chr(diff.get(c, c))
    return Font(name, spec if r.random() < 0.3 else doc.add(spec), {first + i: w for i, w in enumerate(ws)}, missing, desc, h, uni, fontname=fname)


def type3_font(r, doc, name):
    first = r.choice((32, 65))
    n = 90
    ws = [r.choice((0, 1, 2.5, 10, 100, r.randrange(0, 1000))) for _ in range(n)]
    s = r.choice((.001, .01, .5))
    bbox = r.choice(([0, 0, 10, 10], [0, -200, 1000, 800], [-5, -2.5, 100, 7.5]))
    spec = {'Type': Name('Font'), 'Subtype': Name('Type3'), 'FontBBox': bbox, 'FontMatrix': [s, 0, 0, s, 0, 0],
            'CharProcs': {}, 'FirstChar': first, 'LastChar': first + n - 1, 'Widths': ws,
            'Encoding': {'Type': Name('Encoding'), 'Differences': [65] + [Name(bytes((c,))) for c in range(65, 91)]
                         + [97] + [Name(bytes((c,))) for c in range(97, 123)]}}
    return Font(name, spec if r.random() < 0.3 else doc.add(spec), {first + i: w for i, w in enumerate(ws)}, 0, bbox[1], bbox[3] - bbox[1], lambda c: chr(c), hs=s, vs=s)


def cid_font(r, doc, name, vertical=False):
    dw = r.choice((1000, 500, 777, 0.0)) or 1000
    W = []
    widths = {}
    c = 0
    for _ in range(r.randrange(0, 5)):
        c += r.randrange(1, 40)
        if r.random() < 0.5:
            ws = [r.randrange(0, 1500) for _ in range(r.randrange(1, 6))]
            W += [c, ws]
            for i, w in enumerate(ws):
                widths[c + i] = w
            c += len(ws)
        else:
            e = c + r.randrange(0, 30)
            w = r.choice((250, 600.5, 1000))
            W += [c, e, w]
            for i in range(c, e + 1):
                widths[i] = w
            c = e + 1
    fname = 'C%d' % r.randrange(1000)
    desc, asc = -200, 800
    d = {'Type': Name('FontDescriptor'), 'FontName': Name(fname), 'Flags': 4, 'Ascent': asc, 'Descent': desc, 'ItalicAngle': 0,
         'FontBBox': r.choice(([0, 0, 0, 0], [-10, -220, 1000, 900]))}
    h = d['FontBBox'][3] - d['FontBBox'][1] or asc - desc
    sub = {'Type': Name('Font'), 'Subtype': Name('CIDFontType2'), 'BaseFont': Name(fname), 'CIDToGIDMap': Name('Identity'),
           'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0},
           'FontDescriptor': doc.add(d), 'W': W}
    if dw != 1000 or r.random() < 0.5:
        sub['DW'] = dw
    uni = {c: chr(0x4e00 + c) for c in range(256)}
    vert = None
    if vertical:
        vw, W2, c = {}, [], 0
        for _ in range(r.randrange(0, 5)):
            c += r.randrange(1, 40)
            if r.random() < 0.5:
                ts = [(-r.randrange(0, 1500), r.randrange(0, 1000), r.randrange(500, 1000)) for _ in range(r.randrange(1, 5))]
                W2 += [c, [x for t in ts for x in t]]
                for i, t in enumerate(ts):
                    vw[c + i] = t
                c += len(ts)
            else:
                e = c + r.randrange(0, 30)
                t = (-r.choice((500, 600.5, 1000)), r.randrange(0, 1000), 880)
                W2 += [c, e, t[0], t[1], t[2]]
                for i in range(c, e + 1):
                    vw[i] = t
                c = e + 1
        dw2 = r.choice(((880, -1000), (800, -900), (700.5, -500)))
        if dw2 != (880, -1000) or r.random() < 0.5:
            sub['DW2'] = list(dw2)
        sub['W2'] = W2
        bb = d['FontBBox']
        vert = (vw, dw2, (bb[2] - bb[0]) or -dw2[1])
    spec = {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name(fname), 'Encoding': Name('Identity-V' if vertical else 'Identity-H'),
            'DescendantFonts': [doc.add(sub)], 'ToUnicode': doc.add(tounicode(uni.items()))}
    f = Font(name, spec if r.random() < 0.3 else doc.add(spec), widths, dw, desc, h, lambda c: uni[c], nbytes=2, fontname=fname)
    f.vert = vert
    return f


def rand_font(r, doc, name):
    k = r.random()
    if k < 0.6:
        return simple_font(r, doc, name)
    if k < 0.75:
        return type3_font(r, doc, name)
    return cid_font(r, doc, name, r.random() < 0.3)


def font_string(r, f, n=None):
    s = _font_string(r, f, n)
    bad = getattr(f, 'bad', None)
    if bad and r.random() < bad[0]:
        # codes without a character
        k = f.nbytes
        for _ in range(r.choice((1, 1, 3))):
            i = r.randrange(len(s) // k + 1) * k
            s = s[:i] + r.choice(bad[1]).to_bytes(k, 'big') + s[i:]
    return s


def _font_string(r, f, n=None):
    n = r.choice((0, 1, 1, 2, 3, 8)) if n is None else n
    if f.nbytes == 2:
        return b''.join(r.randrange(256).to_bytes(2, 'big') for _ in range(n))
    if f.hs != .001 or f.fontname is None:
        return bytes(r.choice(LETTERS[:52]) for _ in range(n))
    return bytes(r.choice(LETTERS + b'     ()\\') for _ in range(n))


def rand_matrix(r, flat=False):
    k = r.random()
    e, f = dy(r, -100, 400), dy(r, -100, 400)
    if k < 0.3 or flat:
        return (1, 0, 0, 1, e, f)
    if k < 0.55:
        return (dy(r, -3, 3) or 1, 0, 0, dy(r, -3, 3) or 1, e, f)
    if k < 0.75:
        return r.choice(((0, 1, -1, 0, e, f), (0, -2, 0.5, 0, e, f), (-1, 0, 0, -1, e, f)))
    while True:
        m = tuple(dy(r, -2, 2, 4) for _ in range(4))
        if m[0] * m[3] - m[1] * m[2]:
            return m + (e, f)


SPACES = [('CSg', 'DeviceGray', Name('DeviceGray'), 1), ('CSr', 'DeviceRGB', Name('DeviceRGB'), 3),
          ('CSk', 'DeviceCMYK', [Name('DeviceCMYK')], 4),
          ('CScal', 'CalRGB', [Name('CalRGB'), {'WhitePoint': [0.95, 1, 1.08]}], 3),
          ('CSgray', 'CalGray', [Name('CalGray'), {'WhitePoint': [0.95, 1, 1.08]}], 1),
          ('CSlab', 'Lab', [Name('Lab'), {'WhitePoint': [0.95, 1, 1.08]}], 3),
          ('CSidx', 'Indexed', [Name('Indexed'), Name('DeviceRGB'), 1, b'\x00\x00\x00\xff\xff\xff'], 1),
          ('CSpat', 'Pattern', [Name('Pattern')], 1)]


def colour_spaces(r, doc):
    """-> (resource dict, {name: (family, n)})"""
    d, m = {}, {}
    if r.random() < 0.3:
        # resources named like the families themselves
        nm, (fam, spec, n) = r.choice(('CalRGB', 'Lab', 'Indexed', 'Separation', 'ICCBased')), r.choice([s[1:] for s in SPACES])
        d[nm], m[nm] = spec, (fam, n)
    fn = {'FunctionType': 2, 'Domain': [0, 1], 'C0': [0], 'C1': [1], 'N': 1}
    for name, fam, spec, n in r.sample(SPACES, r.randrange(0, len(SPACES))):
        d[name] = doc.add(spec) if r.random() < 0.4 else spec
        m[name] = (fam, n)
    if r.random() < 0.6:
        n = r.choice((1, 3, 4))
        num = doc.add(n) if r.random() < 0.3 else n
        s = [Name('ICCBased'), doc.add(Stream({'N': num}, b'icc profile'))]
        d['CSicc'] = doc.add(s) if r.random() < 0.5 else s
        m['CSicc'] = ('ICCBased', n)
    if r.random() < 0.5:
        d['CSsep'] = [Name('Separation'), Name('Spot'), Name('DeviceGray'), fn]
        m['CSsep'] = ('Separation', 1)
    if r.random() < 0.5:
        n = r.randrange(2, 6)
        names = [Name('s%d' % i) for i in range(n)]
        d['CSn'] = [Name('DeviceN'), doc.add(names) if r.random() < 0.3 else names, Name('DeviceCMYK'), fn]
        m['CSn'] = ('DeviceN', n)
    return d, m


class Gen:
    """Random program text for given resources; tracks just enough state to stay legal."""

    def __init__(self, r, fonts=(), spaces=None, xobjs=(), inline=None, text=True, colours=True, paths=True, qdepth=6, maxtext=12, pats=None):
        self.r = r
        self.fonts = list(fonts)
        self.spaces = spaces or {}
        self.pats = pats
        self.xobjs = list(xobjs)
        self.inline = inline
        self.text, self.colours, self.paths = text, colours, paths
        self.qdepth = qdepth
        self.maxtext = maxtext
        self.depth = 0
        # components expected by sc / SC, per saved level
        self.ncs, self.scs = ('DeviceGray', 1), ('DeviceGray', 1)
        self.saved = []
        self.fresh = {True, False}
        self.prog = []

    def add(self, op, *a):
        self.prog.append((op, list(a)))

    def num(self, lo=-50, hi=500):
        return dy(self.r, lo, hi)

    def run(self, n):
        for _ in range(n):
            self.step()
        while self.saved:
            self.restore()
        return self.prog

    def save(self):
        self.add('q')
        self.saved.append((self.ncs, self.scs))

    def restore(self):
        self.add('Q')
        self.ncs, self.scs = self.saved.pop()
        # sc / SC is next used after a colour space was chosen again: what Q
        # brings back is then judged by the painted objects alone
        self.fresh = set()

    def step(self):
        r = self.r
        k = r.random()
        if k < 0.12:
            if len(self.saved) < self.qdepth:
                self.save()
        elif k < 0.22:
            if self.saved:
                self.restore()
        elif k < 0.30:
            self.add('cm', *rand_matrix(r))
        elif k < 0.34:
            self.add('w', dy(r, 0, 20))
        elif k < 0.36:
            self.misc()
        elif k < 0.55 and self.colours:
            self.colour()
        elif k < 0.75 and self.paths:
            self.path()
        elif k < 0.88 and self.text and self.fonts:
            self.textobj()
        elif self.xobjs and k < 0.95:
            self.add('Do', Name(r.choice(self.xobjs)))
        elif self.inline and k < 0.98:
            img, tok = self.inline(r)
            self.add('BI', img, tok)
        elif self.paths:
            self.path()

    def misc(self):
        r = self.r
        op = r.choice(('J', 'j', 'M', 'd', 'i', 'ri', 'BMC', 'BDC', 'MP', 'DP', 'BX', 'gs', 'sh'))
        if op in 'Jj':
            self.add(op, r.randrange(3))
        elif op == 'M':
            self.add(op, dy(r, 1, 10))
        elif op == 'd':
            self.add(op, r.choice(([], [3], [2, 1])), 0)
        elif op == 'i':
            self.add(op, r.randrange(100))
        elif op in ('gs', 'sh'):
            self.add(op, Name('None'))
        elif op == 'ri':
            self.add(op, Name('Perceptual'))
        elif op == 'BMC':
            self.add('BMC', Name('Span'))
            self.add('EMC')
        elif op == 'BDC':
            self.add('BDC', Name('Span'), {'MCID': r.randrange(10)})
            self.add('EMC')
        elif op == 'MP':
            self.add('MP', Name('Pt'))
        elif op == 'DP':
            self.add('DP', Name('Pt'), {'A': 1})
        else:
            self.add('BX')
            self.add('EX')

    def unit(self):
        return self.r.choice((0, 1, 0.25, 0.75, 0.2, 0.6, 0.8, 0.4, 0.125))

    def colour(self, stroke=None):
        r = self.r
        stroke = r.random() < 0.5 if stroke is None else stroke
        op = r.choice(('g', 'rg', 'k', 'cs', 'sc', 'cs', 'sc'))
        if op == 'sc' and stroke not in self.fresh:
            op = 'cs'
        self.fresh.add(stroke)
        if op in ('g', 'rg', 'k'):
            n = {'g': 1, 'rg': 3, 'k': 4}[op]
            self.add(op.upper() if stroke else op, *[self.unit() for _ in range(n)])
            sp = ({'g': 'DeviceGray', 'rg': 'DeviceRGB', 'k': 'DeviceCMYK'}[op], n)
            if stroke:
                self.scs = sp
            else:
                self.ncs = sp
            return
        if op == 'cs':
            names = list(self.spaces) + ['DeviceGray', 'DeviceRGB', 'DeviceCMYK']
            n = r.choice(names)
            sp = self.spaces.get(n) or (n, {'DeviceGray': 1, 'DeviceRGB': 3, 'DeviceCMYK': 4}[n])
            self.add('CS' if stroke else 'cs', Name(n))
            if stroke:
                self.scs = sp
            else:
                self.ncs = sp
        fam, n = self.scs if stroke else self.ncs
        if fam == 'Pattern':
            self.add('SCN' if stroke else 'scn', r.choice(self.pats) if self.pats else Name('P%d' % r.randrange(9)))
        else:
            self.add(r.choice(('SC', 'SCN')) if stroke else r.choice(('sc', 'scn')), *[self.unit() for _ in range(n)])

    def subpath(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            self.add('re', self.num(), self.num(), dy(r, -200, 300), dy(r, -200, 300))
            return
        if k < 0.35:        # axis-parallel quadrilateral by hand
            x0, y0, x1, y1 = self.num(), self.num(), self.num(), self.num()
            c = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
            if r.random() < 0.5:
                c.reverse()
            s = r.randrange(4)
            c = c[s:] + c[:s]
            self.add('m', *c[0])
            for p in c[1:]:
                self.add('l', *p)
            if r.random() < 0.8:
                self.add('h')
            return
        x, y = self.num(), self.num()
        self.add('m', x, y)
        if k < 0.37:        # one point
            if r.random() < 0.7:
                self.add('h')
            return
        if k < 0.55:        # one line
            k2 = r.random()
            self.add('l', x if k2 < 0.35 else self.num(), y if 0.35 < k2 < 0.7 else self.num())
            if r.random() < 0.1:
                self.add('h')
            return
        for _ in range(r.choice((1, 2, 3, 3, 4, 7))):
            op = r.choice('lllcvy')
            self.add(op, *[self.num() for _ in range({'l': 2, 'c': 6, 'v': 4, 'y': 4}[op])])
        if r.random() < 0.5:
            self.add('h')
            if r.random() < 0.1:
                # continued from where it was closed
                op = r.choice('lvcy')
                self.add(op, *[self.num() for _ in range({'l': 2, 'c': 6, 'v': 4, 'y': 4}[op])])

    def path(self):
        r = self.r
        for _ in range(r.choice((1, 1, 1, 1, 2, 4)) if r.random() < 0.97 else 0):
            self.subpath()
        if r.random() < 0.1:
            self.add(r.choice(('W', 'W*')))
        self.add(r.choice(('S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*', 'n')))

    def setfont(self):
        self.cur = self.r.choice(self.fonts)
        self.add('Tf', Name(self.cur.name), self.r.choice((1, 8, 10, 12.5, 24, -10, dy(self.r, 1, 60))))

    def textobj(self):
        r = self.r
        self.add('BT')
        self.setfont()
        for _ in range(r.randrange(1, self.maxtext)):
            self.textop()
        self.add('ET')

    def textop(self):
        r = self.r
        k = r.random()
        s = font_string(r, self.cur)
        if k < 0.2:
            self.add('Tj', s)
        elif k < 0.38:
            seq = []
            for _ in range(r.choice((0, 1, 2, 3, 6))):
                seq.append(font_string(r, self.cur) if r.random() < 0.55 else r.choice((-200, 120, 33.5, -1000, 0, dy(r, -500, 500))))
            self.add('TJ', seq)
        elif k < 0.44:
            self.add("'", s)
        elif k < 0.49:
            self.add('"', dy(r, -3, 10), dy(r, -2, 5), s)
        elif k < 0.57:
            self.add('Td', dy(r, -50, 100), dy(r, -50, 50))
        elif k < 0.62:
            self.add('TD', dy(r, -50, 100), dy(r, -50, 50))
        elif k < 0.68:
            self.add('Tm', *rand_matrix(r))
        elif k < 0.73:
            self.add('T*')
        elif k < 0.77:
            self.add('Tc', dy(r, -2, 8))
        elif k < 0.81:
            self.add('Tw', dy(r, -2, 12))
        elif k < 0.85:
            self.add('Tz', r.choice((100, 50, 150, 75.5, 25)))
        elif k < 0.88:
            self.add('TL', dy(r, -20, 40))
        elif k < 0.91:
            self.add('Ts', dy(r, -8, 8))
        elif k < 0.93:
            self.add('Tr', r.randrange(8))
        elif k < 0.96:
            self.setfont()
        elif self.colours:
            self.colour()


def font_res(fonts):
    return {f.name: f.spec for f in fonts}


def image_xobj(r, doc, flate=True):
    """-> (Ref, Image)"""
    import zlib
    w, h = r.choice((1, 2, 7, 8, 9, 31, r.randrange(1, 60))), r.choice((1, 2, 5, 16, r.randrange(1, 40)))
    cs, n, bpc = r.choice((('DeviceGray', 1, 8), ('DeviceRGB', 3, 8), ('DeviceCMYK', 4, 8), ('DeviceGray', 1, 1), ('DeviceGray', 1, 4), ('DeviceGray', 1, 2)))
    data = bytes(r.randrange(256) for _ in range(h * ((w * n * bpc + 7) // 8)))
    d = {'Type': Name('XObject'), 'Subtype': Name('Image'), 'Width': w, 'Height': h, 'BitsPerComponent': bpc, 'ColorSpace': Name(cs)}
    raw = data
    if flate and r.random() < 0.4:
        raw = zlib.compress(data)
        d['Filter'] = Name('FlateDecode')
    return doc.add(Stream(d, raw)), Image(w, h, bpc, None, data)


def inline_image(r, style=None, full=None):
    """-> (Image, content bytes BI .. EI)"""
    import zlib
    style = style or Style(r, 0.2)
    full = r.random() < 0.4 if full is None else full
    w, h = r.choice((1, 2, 7, 8, 17, r.randrange(1, 40))), r.choice((1, 2, 3, r.randrange(1, 20)))
    if r.random() < 0.02:
        w, h = r.choice(((4090, 1), (97, 101), (512, 17), (40, 300)))
    ab, cs, n, bpc = r.choice((('G', 'DeviceGray', 1, 8), ('RGB', 'DeviceRGB', 3, 8), ('CMYK', 'DeviceCMYK', 4, 8), ('G', 'DeviceGray', 1, 1),
                               ('G', 'DeviceGray', 1, 4), ('I', 'Indexed', 1, 8)))
    mask = r.random() < 0.15
    if mask:
        bpc, n = 1, 1
    size = h * ((w * n * bpc + 7) // 8)
    while True:
        k = r.random()
        if k < 0.5:
            data = bytes(r.randrange(256) for _ in range(size))
        elif k < 0.8:       # full of look-alikes of the end
            data = b''.join(r.choice((b'E', b'I', b'EI', b'\n', b' ', b'\r', b'\nE', b'EIx', b'Q', b'>>', b'ID ')) for _ in range(size))[:size]
        else:
            data = bytes([r.choice((0, 255, 10, 13, 32))]) * size
        raw = data
        filt = None
        k = r.random()
        if k < 0.15:
            raw, filt = zlib.compress(data), ('Fl', 'FlateDecode')
        elif k < 0.3:
            raw, filt = data.hex().encode() + b'>', ('AHx', 'ASCIIHexDecode')
        end = r.choice((b'\n', b'\n', b'\r', b'\r\n', b''))
        # the data ends at the first EI followed by white space
        whole = raw + end + b'EI '
        ok = not any(whole[j:j + 2] == b'EI' and whole[j + 2:j + 3].isspace() for j in range(len(whole) - 3)) \
            and not (end == b'' and raw[-1:] in b'\r\n') and not (end == b'\n' and raw[-1:] == b'\r')
        if ok:
            break
    long = {'W': 'Width', 'H': 'Height', 'BPC': 'BitsPerComponent', 'CS': 'ColorSpace', 'F': 'Filter', 'IM': 'ImageMask'}
    d = [('W', w), ('H', h)]
    cspec = None
    if mask:
        d.append(('IM', True))
        if r.random() < 0.5:
            d.append(('BPC', 1))
    else:
        d.append(('BPC', bpc))
        if ab == 'I':
            cspec = [Name('Indexed' if full else 'I'), Name('RGB'), 1, bytes(range(6))]
        else:
            cspec = Name(cs if full or r.random() < 0.3 else ab)
        d.append(('CS', cspec))
    if filt:
        f = Name(filt[1] if full else filt[0])
        d.append(('F', [f] if r.random() < 0.3 else f))
    r.shuffle(d)
    toks = [b'BI']
    for k, v in d:
        toks += list(style.tokens(Name(long[k] if full or r.random() < 0.1 else k))) + list(style.tokens(v))
    head = style.join(toks + [b'ID'])
    return (Image(w, h, bpc, cspec, data, mask), head + r.choice((b' ', b'\n', b'\t')) + raw + end + b'EI' + r.choice((b' ', b'\n', b'\r\n')))
