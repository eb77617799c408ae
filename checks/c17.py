"""Composite fonts and ToUnicode maps decode codes completely."""
import struct
import zlib
from vlib.harness import Violation
from vlib.pdfgen import Doc, Style, Name, Stream
from vlib import lib, refint, encs

ID = 'C17'
LEVEL = 'exploration'
RULE = ('documents with random composite fonts (identity, embedded character maps with codes of one and two bytes, single and range entries; horizontal and vertical) and random '
        'ToUnicode maps (single, range, array entries, texts of several characters and beyond the BMP, comments, split sections) or the character table of an embedded '
        'TrueType font, random W/DW/W2/DW2, showing random codes; text and box of each character compared with the model; non-trivial when a character is compared, '
        'counted by distinct document')
ASSUMPTIONS = ['only codes the character map of the font maps are shown', 'no two codes of one font have the same number and different lengths',
               'no word spacing (C15 covers it)', 'the predefined CJK character maps are not bundled, so only Identity-H and Identity-V are used by name']
CASES = {'quick': 4000, 'thorough': 80000}
MIN = {'chars': 60000, 'bfchar': 5000, 'bfrange': 1500, 'bfarray': 1500, 'long_text': 2000, 'beyond_bmp': 1000, 'carry': 100, 'embedded_cmap': 400, 'two_lengths': 150,
       'cidrange': 500, 'cidchar': 1000, 'vertical': 800, 'w_array': 2000, 'w_range': 2000, 'default_width': 10000, 'own_width': 8000, 'undefined': 500,
       'truetype': 200, 'tt_delta': 300, 'tt_offset': 300, 'simple': 300, 'odd': 150, 'code_not_cid': 300, 'long_codes': 100, 'cid_carry': 50, 'up': 100, 'tt_gap': 100, 'no_map': 60}


class CFont(refint.Font):
    table = None        # {code bytes: number}, for embedded character maps
    cid = None          # {code: cid}

    def codes(self, s):
        if self.table is None:
            return refint.Font.codes(self, s)
        out = []
        i = 0
        while i < len(s):
            for n in (1, 2, 3, 4):
                if s[i:i + n] in self.table:
                    out.append(self.table[s[i:i + n]])
                    i += n
                    break
            else:
                raise ValueError
        return out

    def w(self, c):
        return refint.Font.w(self, self.cid.get(c, c) if self.cid else c)


def hx(b, r):
    s = b.hex()
    if r.random() < 0.3:
        s = s.upper()
    if r.random() < 0.05:
        s = ' '.join(s)
    return b'<' + s.encode() + b'>'


def rtext(r, obs):
    n = r.choice((1, 1, 1, 1, 2, 3, 8))
    t = ''
    for _ in range(n):
        if r.random() < 0.1:
            t += chr(r.randrange(0x10000, 0x110000))
            obs.count('beyond_bmp')
        else:
            t += chr(encs.scalar(r, 0x21))
    if n > 1:
        obs.count('long_text')
    return t


def sep(r):
    return r.choice((b' ', b' ', b'\n', b'\r\n', b'  ', b'\t', b'')) if r.random() < 0.9 else b' % <0041> comment\n'


def sections(r, entries, word):
    out = b''
    k = 0
    while k < len(entries):
        n = r.choice((1, 2, 10, 100))
        part = entries[k:k + n]
        k += n
        out += b'%d begin%s\n' % (len(part), word) + b''.join(part) + b'end%s\n' % word
    return out


def tounicode(r, codes, obs):
    """codes: [(number, bytes length)] -> stream data, {code: text}; later entries override nothing"""
    m = {}
    chars, ranges = [], []
    left = sorted(set(codes))
    lens = dict(left)
    todo = list(left)
    r.shuffle(todo)
    for c, n in todo:
        if c in m:
            continue
        k = r.random()
        if k < 0.12:
            continue        # stays without text
        if k < 0.5:
            t = rtext(r, obs) if r.random() < 0.97 else ''
            m[c] = t
            chars.append(hx(c.to_bytes(n, 'big'), r) + sep(r) + hx(t.encode('utf-16-be'), r) + b'\n')
            obs.count('bfchar')
            continue
        # a run of codes of this length without text so far
        e = c
        lim = r.choice((1, 2, 5, 40, 300))
        while e - c + 1 < lim and e + 1 < 256 ** n and e + 1 not in m and lens.get(e + 1, n) == n:
            e += 1
        if k < 0.75:
            ts = [rtext(r, obs) if r.random() < 0.97 else '' for _ in range(c, min(e, c + 30) + 1)]
            e = c + len(ts) - 1
            for i, t in enumerate(ts):
                m[c + i] = t
            ranges.append(hx(c.to_bytes(n, 'big'), r) + sep(r) + hx(e.to_bytes(n, 'big'), r) + sep(r) + b'[' + sep(r)
                          + b''.join(hx(t.encode('utf-16-be'), r) + sep(r) for t in ts) + b']\n')
            obs.count('bfarray')
            continue
        size = e - c + 1
        if r.random() < 0.04:
            # codes without text
            for i in range(size):
                m[c + i] = ''
            ranges.append(hx(c.to_bytes(n, 'big'), r) + sep(r) + hx(e.to_bytes(n, 'big'), r) + sep(r) + b'<>\n')
            obs.count('bfrange_empty')
            continue
        pre = rtext(r, obs) if r.random() < 0.2 else ''
        if r.random() < 0.1:
            hi = r.randrange(0xd800, 0xdc00)
            lo = 0xdc00 + r.randrange(0, 0x400)
            size = min(size, 0xe000 - lo, 256 - (lo & 255))
            base = struct.pack('>HH', hi, lo)
            obs.count('beyond_bmp')
            fn = lambda i: struct.pack('>HH', hi, lo + i).decode('utf-16-be')
        else:
            u = encs.scalar(r, 0x21, 0xd000)
            if r.random() < 0.8:
                size = min(size, 256 - (u & 255))
            size = min(size, 0xd7ff - u)
            if (u & 255) + size > 256:
                obs.count('carry')
            base = struct.pack('>H', u)
            fn = lambda i: chr(u + i)
        e = c + size - 1
        for i in range(size):
            m[c + i] = pre + fn(i)
        obs.count('bfrange')
        ranges.append(hx(c.to_bytes(n, 'big'), r) + sep(r) + hx(e.to_bytes(n, 'big'), r) + sep(r) + hx(pre.encode('utf-16-be') + base, r) + b'\n')
    parts = [sections(r, chars, b'bfchar'), sections(r, ranges, b'bfrange')]
    r.shuffle(parts)
    body = b''.join(parts)
    lens = {n for c, n in codes} or {2}
    head = (b'/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo\n<< /Registry (Adobe)\n/Ordering (UCS)\n/Supplement 0\n>> def\n'
            b'/CMapName /Adobe-Identity-UCS def\n/CMapType 2 def\n' if r.random() < 0.8 else b'')
    cs = b'%d begincodespacerange\n' % len(lens) + b''.join(b'<' + b'00' * n + b'> <' + b'FF' * n + b'>\n' for n in lens) + b'endcodespacerange\n'
    tail = b'endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n' if head else b''
    data = head + (cs if r.random() < 0.9 else b'') + body + tail
    if r.random() < 0.1:
        data = data.replace(b'\n', b'\r')       # comments would swallow the rest
        data = data if b'%' not in data else data.replace(b'\r', b'\n')
    a = {}
    if r.random() < 0.4:
        data = zlib.compress(data)
        a['Filter'] = Name('FlateDecode')
    return Stream(a, data), m


def embedded(r, obs, wmode):
    """-> stream, {code bytes: number}, {code: cid}"""
    table, cid = {}, {}
    two = r.random() < 0.6
    ones = r.random() < 0.6 or not two
    cs = []
    chars, ranges = [], []
    if ones:
        cs.append(b'<00> <7f>\n')
    if two:
        cs.append(b'<8000> <ffff>\n')
    three, four = False, False
    if two and r.random() < 0.3:
        cs[-1] = b'<8000> <dfff>\n'
        three = r.random() < 0.7
        four = r.random() < 0.5 or not three
        if three:
            cs.append(b'<e00000> <efffff>\n')
        if four:
            cs.append(b'<f0000000> <ffffffff>\n')
        obs.count('long_codes')
    lim = {1: (0, 0x80), 2: (0x8000, 0xe000 if three or four else 0x10000), 3: (0xe00000, 0xf00000), 4: (0xf0000000, 1 << 32)}
    if ones and two:
        obs.count('two_lengths')
    for _ in range(r.choice((1, 3, 10))):
        n = r.choice([k for k, ok in ((1, ones), (2, two), (3, three), (4, four)) if ok])
        c = r.randrange(*lim[n])
        if n > 1 and r.random() < 0.3:
            c = c | r.choice((0xfe, 0xff, 0xf0))
            obs.count('near_carry')
        if r.random() < 0.5:
            v = r.choice((c & 0xffff, r.randrange(0, 0xffff)))
            chars.append((c, n, 1, v))
            obs.count('cidchar')
        else:
            size = r.choice((1, 2, 10, 100, 100, 300, 3000))
            size = min(size, lim[n][1] - c)
            if (c & 255) + size > 256:
                obs.count('cid_carry')
            v = r.randrange(0, 0xff00)
            ranges.append((c, n, size, v))
            obs.count('cidrange')
    used = set()
    out = {b'cidchar': [], b'cidrange': []}
    for lst, w in ((chars, b'cidchar'), (ranges, b'cidrange')):
        for c, n, size, v in lst:
            if any(c + i in used for i in range(size)):
                continue
            for i in range(size):
                used.add(c + i)
                b = (c + i).to_bytes(n, 'big')
                table[b] = c + i
                cid[c + i] = v + i
                if v != c:
                    obs.count('code_not_cid')
            if w == b'cidchar':
                out[w].append(hx(c.to_bytes(n, 'big'), r) + b' %d\n' % v)
            else:
                out[w].append(hx(c.to_bytes(n, 'big'), r) + sep(r) + hx((c + size - 1).to_bytes(n, 'big'), r) + b' %d\n' % v)
    parts = [sections(r, out[w], w) for w in out]
    if r.random() < 0.3:
        # says what to show for codes without a CID: changes nothing
        parts.append(b'1 beginnotdefrange\n<00> <1f> 7\nendnotdefrange\n')
    r.shuffle(parts)
    data = (b'%!PS-Adobe-3.0 Resource-CMap\n/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n'
            b'/CIDSystemInfo 3 dict dup begin /Registry (Adobe) def /Ordering (Identity) def /Supplement 0 def end def\n'
            b'/CMapName /Own def\n/CMapType 1 def\n' + (b'/WMode 1 def\n' if wmode in (1, 3) else b'')
            + b'%d begincodespacerange\n' % len(cs) + b''.join(cs) + b'endcodespacerange\n' + b''.join(parts) + b'endcmap\nend end\n')
    a = {'Type': Name('CMap'), 'CMapName': Name('Own'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0}}
    if wmode in (2, 3):
        a['WMode'] = 1
    if r.random() < 0.3:
        data = zlib.compress(data)
        a['Filter'] = Name('FlateDecode')
    return Stream(a, data), table, cid


def widths(r, doc, obs):
    W, w, c = [], {}, 0
    for _ in range(r.randrange(0, 8)):
        c += r.choice((0, 1, 10, 50, 200, 5000))
        if c > 65000:
            break
        if r.random() < 0.5:
            ws = [r.choice((0, r.randrange(0, 2000), 500.25)) for _ in range(r.choice((1, 2, 10, 60)))]
            ws = ws[:65536 - c]
            W += [c, [doc.add(x) if r.random() < .03 else x for x in ws]]
            for i, x in enumerate(ws):
                w[c + i] = x
            c += len(ws)
            obs.count('w_array')
        else:
            e = min(c + r.choice((0, 1, 10, 100, 3000)), 65535)
            x = r.choice((0, 250, 600.5, 1000))
            W += [c, e, x]
            for i in range(c, e + 1):
                w[i] = x
            c = e + 1
            obs.count('w_range')
    return W, w


def widths2(r, obs):
    W, w, c = [], {}, 0

    def up():
        if r.random() < 0.1:
            obs.count('up')
            return 1
        return -1
    for _ in range(r.randrange(0, 6)):
        c += r.choice((0, 1, 10, 50, 5000))
        if r.random() < 0.5:
            ts = [(up() * r.randrange(0, 1500), r.randrange(0, 1000), r.randrange(500, 1000)) for _ in range(r.choice((1, 2, 10)))]
            W += [c, [x for t in ts for x in t]]
            for i, t in enumerate(ts):
                w[c + i] = t
            c += len(ts)
        else:
            e = c + r.choice((0, 1, 10, 300))
            t = (up() * r.choice((500, 600.5, 1000)), r.randrange(0, 1000), 880)
            W += [c, e, t[0], t[1], t[2]]
            for i in range(c, e + 1):
                w[i] = t
            c = e + 1
    return W, w


def fmt4(r, segs, obs):
    segs = segs + [(0xffff, [0], 'd')]
    n = len(segs)
    ends = [s + len(g) - 1 for s, g, m in segs]
    deltas, offs, arr = [], [], []
    # the arrays may lie in any order, with unused room between them
    start = {}
    at = 0
    own = [i for i, (s, g, m) in enumerate(segs) if m != 'd']
    if r.random() < 0.5:
        r.shuffle(own)
    for i in own:
        if r.random() < 0.2:
            gap = r.randrange(1, 5)
            at += gap
            obs.count('tt_gap')
        start[i] = at
        at += len(segs[i][1])
    arr = [0x7777] * at
    for i, (s, g, m) in enumerate(segs):
        if m == 'd':
            deltas.append((g[0] - s) & 0xffff)
            offs.append(0)
        else:
            k = r.choice([k for k in (0, 0, 7, 0xfff0) if k not in g] or [0])
            deltas.append(k)
            offs.append(2 * (n - i) + 2 * start[i])
            arr[start[i]:start[i] + len(g)] = [(x - k) & 0xffff if x else 0 for x in g]

    def H(v):
        return struct.pack('>%dH' % len(v), *v)
    body = H([2 * n, 0, 0, 0]) + H(ends) + H([0]) + H([s for s, g, m in segs]) + H(deltas) + H(offs) + H(arr)
    return H([4, len(body) + 6, 0]) + body


def truetype(r, obs):
    """-> font file, {gid: text}"""
    segs, c, gid, m = [], r.choice((0x21, 0x41, 0x391)), r.choice((1, 3, 40)), {}
    for _ in range(r.choice((1, 2, 5, 20))):
        n = r.choice((1, 2, 10, 26))
        if r.random() < 0.5:
            g = list(range(gid, gid + n))
            segs.append((c, g, 'd'))
            obs.count('tt_delta')
        else:
            g = list(range(gid, gid + n))
            r.shuffle(g)
            g = [0 if r.random() < 0.1 and x > 40 else x for x in g]
            segs.append((c, g, 'o'))
            obs.count('tt_offset')
        for i, x in enumerate(g):
            if x:
                m[x] = chr(c + i)
        c += n + r.choice((1, 5, 100, 1000))
        gid += n + r.choice((0, 0, 3))
        if c > 0xd000:
            break
    subs = [r.choice(((3, 1), (3, 1), (0, 3))) + (fmt4(r, segs, obs),)]
    if r.random() < 0.3:
        # Macintosh codes are no Unicode characters
        subs.append((1, 0, b'\0\0\1\6\0\0' + bytes(r.randrange(256) for _ in range(256))))
    if r.random() < 0.2:
        subs.append((3, 10, struct.pack('>HHLLL', 12, 0, 16, 0, 0)))
    if r.random() < 0.3 and len(subs) > 1:
        r.shuffle(subs)
    tab = struct.pack('>HH', 0, len(subs))
    off = 4 + 8 * len(subs)
    b = b''
    for p, e, d in subs:
        tab += struct.pack('>HHL', p, e, off + len(b))
        b += d
    tab += b
    extra = bytes(r.randrange(256) for _ in range(54))
    tables = [(b'cmap', tab), (b'head', extra)]
    if r.random() < 0.5:
        tables.reverse()
    out = b'\0\1\0\0' + struct.pack('>HHHH', len(tables), 16, 0, 0)
    pos = 12 + 16 * len(tables)
    body = b''
    for t, d in tables:
        out += struct.pack('>4sLLL', t, 0, pos + len(body), len(d))
        body += d + b'\0' * (-len(d) % 4)
    return out + body, m


def simple(r, doc, name, obs):
    obs.count('simple')
    codes = [(c, 1) for c in r.sample(range(33, 127), r.choice((1, 10, 60)))]
    tu, m = tounicode(r, codes, obs)
    fn = 'S%d' % r.randrange(1000)
    spec = {'Type': Name('Font'), 'Subtype': Name(r.choice(('Type1', 'TrueType'))), 'BaseFont': Name(fn), 'Encoding': Name('WinAnsiEncoding'), 'FirstChar': 32,
            'LastChar': 34, 'Widths': [100, 200, 300], 'ToUnicode': doc.add(tu),
            'FontDescriptor': {'Type': Name('FontDescriptor'), 'FontName': Name(fn), 'Flags': 32, 'Ascent': 800, 'Descent': -200, 'FontBBox': [0, -200, 500, 800],
                               'MissingWidth': 400}}
    f = CFont(name, doc.add(spec), {32: 100, 33: 200, 34: 300}, 400, -200, 1000, lambda c: m.get(c, encs.WIN.get(c, '')), fontname=fn)
    f.show = [bytes((c,)) for c in range(33, 127)]
    return f


def composite(r, doc, name, obs):
    vertical = r.random() < 0.3
    emb = r.random() < 0.3
    W, w = widths(r, doc, obs)
    dw = r.choice((1000, 1000, 0, 500, 777.5))
    fn = 'C%d' % r.randrange(1000)
    bb = r.choice(([0, 0, 0, 0], [-10, -220, 1000, 900]))
    fd = {'Type': Name('FontDescriptor'), 'FontName': Name(fn), 'Flags': 4, 'Ascent': 800, 'Descent': -200, 'ItalicAngle': 0, 'FontBBox': bb}
    sub = {'Type': Name('Font'), 'Subtype': Name(r.choice(('CIDFontType2', 'CIDFontType0'))), 'BaseFont': Name(fn),
           'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0}, 'W': doc.add(W) if r.random() < .3 else W}
    if dw != 1000 or r.random() < 0.3:
        sub['DW'] = dw
    spec = {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name(fn + '-Identity-H')}
    f = CFont(name, None, w, dw, -200, bb[3] - bb[1] or 1000, None, nbytes=2, fontname=fn)
    codes = None
    if emb:
        obs.count('embedded_cmap')
        wmode = r.choice((1, 2, 3)) if vertical else 0
        st, f.table, f.cid = embedded(r, obs, wmode)
        spec['Encoding'] = doc.add(st)
        codes = [(c, len(b)) for b, c in f.table.items()]
        f.show = list(f.table)
    else:
        spec['Encoding'] = Name('Identity-V' if vertical else 'Identity-H')
    if not emb and r.random() < 0.25:
        obs.count('truetype')
        data, m = truetype(r, obs)
        fd['FontFile2'] = doc.add(Stream({'Length1': len(data)}, data))
        sub['Subtype'] = Name('CIDFontType2')
        sub['CIDToGIDMap'] = Name('Identity')
        f.show = [g.to_bytes(2, 'big') for g in list(m) + [r.randrange(0, 2000) for _ in range(3)]]
    else:
        if codes is None:
            pool = sorted(w) or [0]
            cs = {r.choice(pool) if r.random() < 0.3 else r.randrange(0, r.choice((256, 1000, 65536))) for _ in range(r.choice((1, 10, 100)))}
            codes = [(c, 2) for c in cs]
            near = [c + d for c in cs for d in (1, 2, 7) if c + d < 65536]
            f.show = [c.to_bytes(2, 'big') for c in list(cs) + r.sample(near, min(len(near), 40))]
        if r.random() < 0.04:
            # nothing says which characters these are
            m = {}
            obs.count('no_map')
        else:
            tu, m = tounicode(r, codes, obs)
            spec['ToUnicode'] = doc.add(tu)
    f.uni = lambda c: m.get(c, '')
    if vertical:
        obs.count('vertical')
        W2, w2 = widths2(r, obs)
        dw2 = r.choice(((880, -1000), (800, -900), (700.5, -500)))
        if dw2 != (880, -1000) or r.random() < 0.5:
            sub['DW2'] = list(dw2)
        sub['W2'] = W2

        class VW(dict):
            def get(self, c, d):
                return dict.get(self, f.cid.get(c, c) if f.cid else c, d)
        f.vert = (VW(w2), dw2, (bb[2] - bb[0]) or -dw2[1])
    if r.random() < 0.1:
        sub['CIDSystemInfo'] = {k: doc.add(v) for k, v in sub['CIDSystemInfo'].items()}
    sub['FontDescriptor'] = doc.add(fd) if r.random() < 0.7 else fd
    spec['DescendantFonts'] = [doc.add(sub)]
    if r.random() < 0.2:
        spec['DescendantFonts'] = doc.add(spec['DescendantFonts'])
    f.spec = doc.add(spec) if r.random() < 0.7 else spec
    return f


def case(r, i, tier, obs):
    doc = Doc()
    fonts = [simple(r, doc, 'F%d' % j, obs) if r.random() < 0.15 else composite(r, doc, 'F%d' % j, obs) for j in range(r.choice((1, 1, 2)))]
    prog = []
    for f in fonts:
        for _ in range(r.choice((1, 2, 4))):
            prog += [('BT', ()), ('Tf', (Name(f.name), r.choice((1, 10, 12.5, 100)))), ('Td', (r.randrange(0, 500), r.randrange(0, 700)))]
            for _ in range(r.choice((1, 1, 2))):
                bs = [r.choice(f.show) for _ in range(r.choice((1, 5, 20, 60)))] if f.show else []
                s = b''.join(bs)
                for b in bs:
                    c = int.from_bytes(b, 'big')
                    cc = f.cid.get(c, c) if f.cid else c
                    if f.nbytes == 2:
                        obs.count('own_width' if cc in (f.vert[0] if f.vert else f.widths) else 'default_width')
                    if f.uni(c) == '':
                        obs.count('undefined')
                if f.nbytes == 2 and f.table is None and r.random() < 0.1:
                    s += b'\x41'
                    obs.count('odd')
                if r.random() < 0.3:
                    prog.append(('TJ', ([s, r.choice((-100, 50)), b''.join(r.choice(f.show) for _ in range(2)) if f.show else b''],)))
                else:
                    prog.append(('Tj', (s,)))
            prog.append(('ET', ()))
    style = Style(r, r.choice((0, 0, 0.5)))
    data = refint.content(prog, style)
    doc.page(data, {'Font': {f.name: f.spec for f in fonts}})
    pdf = doc.build()
    obs.artifact('in.pdf', pdf)
    obs.artifact('content', data)
    R = refint.Res({f.name: f for f in fonts}, {})
    want = refint.Machine(R).run(prog)
    n = sum(len(s['chars']) for w in want for s in w['shows'])
    got = lib.items(pdf, ignore_bad_chars=True)
    obs.count('chars', n)
    if n:
        obs.nontrivial(pdf)
    d = refint.compare(want, got, lib, colors=False)
    if d:
        raise Violation(d)
