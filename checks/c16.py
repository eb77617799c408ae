"""Simple fonts decode each byte by the font's declared encoding."""
import zlib
from vlib.harness import Violation
from vlib.pdfgen import Doc, Style, Name, Stream
from vlib import lib, refint, encs
from vlib.proggen import tounicode

ID = 'C16'
LEVEL = 'exploration'
RULE = ('documents with random simple fonts (three base encodings, random Differences with glyph names of every form, encodings built into a Type 1 font file, '
        'ToUnicode, random Widths / FirstChar / MissingWidth, standard fonts, Type 3 font matrices) showing random and exhaustive byte strings; text, left and right edge '
        'of each character compared with tables written down independently; non-trivial when a character is compared, counted by distinct document')
ASSUMPTIONS = ['WinAnsiEncoding codes without a character (127, 129, 141, 143, 144, 157) and the codes of the Mac OS set that MacRomanEncoding leaves out are not shown']
CASES = {'quick': 9000, 'thorough': 200000}
MIN = {'chars': 60000, 'differences': 3000, 'agl': 4000, 'uni': 900, 'u': 700, 'suffix': 300, 'ligature': 300, 'missing_width': 10000, 'own_width': 10000,
       'standard_font': 5000, 'type1_file': 3000, 'type3': 3000, 'tounicode': 1000, 'undefined': 500, 'whole_base': 60, 'unlisted': 500, 'own_base': 500, 'own_metrics': 300, 'declared_base': 300, 'no_descriptor': 100}


def font(r, doc, obs):
    """-> spec, {code: text}, width(code) in text units"""
    kind = r.choice(('plain', 'plain', 'plain', 'std', 't1', 't3'))
    enc = {}
    hidden = set()      # codes with a name from no list
    spec = {'Type': Name('Font')}

    def ind(v, p=0.25):
        return doc.add(v) if r.random() < p else v

    base = r.choice(list(encs.BASE))
    mode = r.choice(('name', 'diff', 'diff', 'diff', 'none'))
    if kind == 't1':
        mode = r.choice(('none', 'none', 'own', 'own', 'name', 'based'))
        prog = b'%!PS-AdobeFont-1.0: X\n12 dict begin\n/FontInfo 3 dict dup begin /version (1.0) readonly def /isFixedPitch false def end readonly def\n/FontName /X def\n'
        if r.random() < 0.2:
            enc = dict(encs.STD)
            prog += b'/Encoding StandardEncoding def\n'
        else:
            prog += b'/Encoding 256 array\n0 1 255 {1 index exch /.notdef put} for\n'
            for c in sorted(r.sample(range(256), r.choice((1, 5, 50, 200)))):
                g, t, k = encs.glyph(r)
                obs.count(k)
                enc[c] = t
                prog += b'dup %d /%s put%s' % (c, g.encode(), r.choice((b'\n', b' ', b'\r\n')))
            prog += b'readonly def\n'
        prog += b'/PaintType 0 def\n/FontBBox {-100 -200 1000 900} readonly def\ncurrentdict end\ncurrentfile eexec\n'
        tail = bytes(r.randrange(256) for _ in range(60)) + b'dup 65 /Z put dup 66 /Z put\n' + b'0' * 64 + b'\ncleartomark\n'
        data = prog + tail
        a = {'Length1': ind(len(prog)), 'Length2': len(tail) - 76, 'Length3': 76}
        if r.random() < 0.5:
            data = zlib.compress(data)
            a['Filter'] = Name('FlateDecode')
        ff = doc.add(Stream(a, data))
    if kind == 't1' and mode == 'none':
        pass
    elif mode == 'name':
        enc = dict(encs.BASE[base])
        spec['Encoding'] = ind(Name(base))
    elif mode == 'none':
        enc = dict(encs.STD)
    else:
        d = {}
        if r.random() < 0.5:
            d['Type'] = Name('Encoding')
        if mode == 'own':
            # the differences are from the encoding of the font file
            obs.count('own_base')
        elif mode == 'based' or r.random() < 0.7:
            d['BaseEncoding'] = ind(Name(base), 0.1)
            enc = dict(encs.BASE[base])
        else:
            enc = dict(encs.STD)
        arr = []
        for _ in range(r.choice((0, 1, 1, 2, 3, 8))):
            c = r.randrange(256)
            arr.append(ind(c, 0.03))
            for _ in range(r.choice((1, 1, 2, 5, 20))):
                if c > 255:
                    break
                if r.random() < 0.03:
                    # a name from no list: its code is not shown, and takes its place in the run
                    arr.append(Name(r.choice(('nosuchglyph', 'qqqq', 'Xyzzy.alt', 'foo_barbaz', '.notdef'))))
                    enc.pop(c, None)
                    hidden.add(c)
                    obs.count('unlisted')
                    c += 1
                    continue
                g, t, k = encs.glyph(r)
                obs.count(k)
                obs.count('differences')
                arr.append(ind(Name(g), 0.03))
                enc[c] = t
                c += 1
        d['Differences'] = ind(arr)
        spec['Encoding'] = ind(d, 0.5)
    s = .001
    if kind == 'std':
        fn = r.choice(list(encs.STANDARD))
        spec['BaseFont'] = Name(fn)
        spec['Subtype'] = Name(r.choice(('Type1', 'Type1', 'TrueType')))
        table = encs.STANDARD[fn]
        enc = {c: t for c, t in enc.items() if len(t) == 1 and ord(t) in table}

        def width(c):
            return table[ord(enc[c])] * .001
    else:
        first = r.choice((0, 0, 1, 32, 65, r.randrange(256)))
        n = r.choice((0, 1, 10, 90, 256 - first))
        n = min(n, 256 - first)
        ws = [r.choice((0, 250, 500, 333.25, 1000, r.randrange(0, 3000))) for _ in range(n)]
        missing = 0
        spec['FirstChar'] = ind(first, 0.1)
        spec['LastChar'] = first + n - 1
        spec['Widths'] = ind([ind(w, 0.05) for w in ws])
        bb = [-100, -200, 1000, 800]
        if kind == 't3':
            s = r.choice((.001, .01, .5, .0625))
            spec.update({'Subtype': Name('Type3'), 'FontBBox': ind(bb), 'FontMatrix': ind([s, 0, 0, s, 0, 0]), 'CharProcs': {}})
            fd = None
        else:
            nm = 'ABCDEF+Font%d' % r.randrange(1000)
            if r.random() < 0.15:
                # named like a standard font, with metrics of its own
                nm = r.choice(list(encs.STANDARD))
                obs.count('own_metrics')
            spec['BaseFont'] = Name(nm)
            spec['Subtype'] = Name(r.choice(('TrueType', 'Type1', 'MMType1'))) if kind != 't1' else Name('Type1')
            fd = {'Type': Name('FontDescriptor'), 'FontName': Name(nm), 'Flags': r.choice((4, 32)), 'FontBBox': ind(bb), 'Ascent': 800, 'Descent': -200,
                  'ItalicAngle': 0, 'StemV': 80, 'CapHeight': 700}
            if kind == 't1':
                fd['FontFile'] = ff
                obs.count('declared_base', mode in ('name', 'based'))
            if r.random() < 0.5:
                missing = r.choice((0, 250, 600, 777.5))
                fd['MissingWidth'] = ind(missing, 0.2)
            if kind == 'plain' and r.random() < 0.05:
                # an old font without a descriptor
                missing = 0
                obs.count('no_descriptor')
            else:
                spec['FontDescriptor'] = ind(fd, 0.7)
        wm = {first + i: w for i, w in enumerate(ws)}

        def width(c):
            obs.count('own_width' if c in wm else 'missing_width')
            return wm.get(c, missing) * s
    if kind != 'std' and r.random() < 0.12:
        # ToUnicode takes precedence
        m = {c: ''.join(chr(encs.scalar(r, 0x21)) for _ in range(r.choice((1, 1, 2, 3)) if r.random() < 0.9 else 0)) for c in r.sample(range(256), r.choice((1, 5, 60)))}
        spec['ToUnicode'] = doc.add(tounicode(m.items(), 1))
        enc.update(m)
        obs.count('tounicode', len(m))
    return kind, (mode, base), spec, enc, width, s, hidden


def case(r, i, tier, obs):
    doc = Doc()
    style = Style(r, r.choice((0, 0, 0.5)))
    fonts = {}
    prog = []
    want = []
    ignore = False
    for j in range(r.choice((1, 1, 2, 3))):
        kind, (mode, base), spec, enc, width, s, hidden = font(r, doc, obs)
        fonts['F%d' % j] = doc.add(spec) if r.random() < 0.7 else spec
        codes = sorted(enc)
        for _ in range(r.choice((1, 2, 4))):
            if not codes:
                break
            if r.random() < 0.1:
                cs = codes
                if len(cs) > 100 and mode == 'name':
                    obs.count('whole_base')
                    obs.distinct('base', base)
            else:
                cs = [r.choice(codes) for _ in range(r.choice((1, 3, 10, 30)))]
            if r.random() < 0.1 and kind != 'std':
                # codes without a character have room but no text
                bad = [c for c in range(32) if c not in enc and c not in hidden]
                if bad:
                    cs = list(cs)
                    for _ in range(r.choice((1, 3))):
                        cs.insert(r.randrange(len(cs) + 1), r.choice(bad))
                        obs.count('undefined')
                    ignore = True
            size = r.choice((1, 10, 12.5, 1000))
            x, y = r.randrange(0, 500), r.randrange(0, 700)
            prog += [('BT', ()), ('Tf', (Name('F%d' % j), size)), ('Td', (x, y))]
            chars = []
            pos = x
            for c in cs:
                w = width(c) * size
                chars.append((enc.get(c, ''), pos, pos + w))
                pos += w
            if r.random() < 0.5:
                k = r.randrange(len(cs) + 1)
                prog.append(('TJ', ([bytes(cs[:k]), bytes(cs[k:])],)))
            else:
                prog.append(('Tj', (bytes(cs),)))
            prog.append(('ET', ()))
            want.append((kind, chars))
            obs.count({'std': 'standard_font', 't1': 'type1_file', 't3': 'type3'}.get(kind, 'plain'), len(cs))
    data = refint.content(prog, style)
    doc.page(data, {'Font': fonts})
    pdf = doc.build()
    obs.artifact('in.pdf', pdf)
    obs.artifact('content', data)
    got = lib.items(pdf, ignore_bad_chars=ignore)
    if len(got) != len(want):
        raise Violation('expected %d text objects, got %d' % (len(want), len(got)))
    for (kind, chars), t in zip(want, got):
        hs = [c for b in t for c in b]
        a = [c[0] for c in chars]
        b = [h.get_text() for h in hs]
        if a != b:
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), None)
            raise Violation('%s font: character %s expected %r got %r' % (kind, k, a[k] if k is not None else len(a), b[k] if k is not None else len(b)))
        for (u, x0, x1), h in zip(chars, hs):
            tol = 1e-6 * max(1, abs(x1))
            if abs(h.bbox.x0 - x0) > tol or abs(h.bbox.x1 - x1) > tol:
                raise Violation('%s font: character %r expected from %r to %r, got from %r to %r' % (kind, u, x0, x1, h.bbox.x0, h.bbox.x1))
        obs.count('chars', len(hs))
    if want:
        obs.nontrivial(pdf)
