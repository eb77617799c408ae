"""Faulty documents: type confusion of any entry, content faults, byte faults."""
import re
import zlib

from .pdfgen import Name, Ref, Raw, Stream

NAMES = ['Type', 'Page', 'Pages', 'Catalog', 'Font', 'Type0', 'Type1', 'Type3', 'TrueType', 'CIDFontType0', 'CIDFontType2', 'MMType1', 'XObject', 'Form', 'Image',
         'FlateDecode', 'LZWDecode', 'ASCII85Decode', 'ASCIIHexDecode', 'RunLengthDecode', 'CCITTFaxDecode', 'DCTDecode', 'JBIG2Decode', 'JPXDecode', 'Crypt', 'Fl', 'LZW',
         'DeviceGray', 'DeviceRGB', 'DeviceCMYK', 'ICCBased', 'Indexed', 'DeviceN', 'Separation', 'Pattern', 'CalRGB', 'Lab',
         'WinAnsiEncoding', 'MacRomanEncoding', 'StandardEncoding', 'Identity-H', 'Identity-V', 'OneByteIdentityH', 'UniGB-UCS2-H', '90ms-RKSJ-V', 'Standard', 'ObjStm', 'XRef', 'Helvetica',
         '', '\xff\xfe', 'A', '..', 'F0', 'Im0', 'Fm0', 'StdCF', 'Identity', 'V2', 'AESV2', 'AESV3', 'None']
KEYS = ['Filter', 'DecodeParms', 'Length', 'F', 'DP', 'Predictor', 'Columns', 'Colors', 'BitsPerComponent', 'EarlyChange', 'K', 'Rows', 'BlackIs1', 'EncodedByteAlign',
        'Type', 'Subtype', 'Kids', 'Parent', 'Count', 'MediaBox', 'CropBox', 'Rotate', 'Resources', 'Contents', 'Font', 'XObject', 'ColorSpace', 'ProcSet', 'Annots',
        'BaseFont', 'FirstChar', 'LastChar', 'Widths', 'Encoding', 'Differences', 'BaseEncoding', 'FontDescriptor', 'FontName', 'FontBBox', 'Ascent', 'Descent', 'Flags', 'MissingWidth',
        'FontFile', 'FontFile2', 'FontFile3', 'Length1', 'Length2', 'Length3', 'FontWeight', 'FontFamily', 'ItalicAngle', 'Leading', 'ToUnicode', 'DescendantFonts', 'CIDSystemInfo', 'Registry', 'Ordering', 'W', 'W2', 'DW', 'DW2',
        'CIDToGIDMap', 'FontMatrix', 'CharProcs', 'UseCMap', 'WMode', 'CMapName', 'Matrix', 'BBox', 'Width', 'Height', 'ImageMask', 'N', 'First', 'Extends', 'Index', 'Size', 'Prev', 'XRefStm', 'Root', 'Info',
        'Encrypt', 'ID', 'V', 'R', 'O', 'U', 'P', 'OE', 'UE', 'CF', 'StmF', 'StrF', 'EFF', 'CFM', 'EncryptMetadata', 'Outlines', 'Names', 'Dests', 'Limits', 'Next', 'Last', 'Title', 'Dest', 'A', 'SE', 'D', 'AcroForm', 'Pages', 'LastModified', 'B']


def value(r, nums, depth=0):
    """A value of any type, related to nothing."""
    k = r.randrange(26 if depth < 3 else 20)
    if k < 2:
        return None
    if k == 2:
        return r.random() < 0.5
    if k < 6:
        return r.choice((-1, 0, 1, 2, 3, 7, 8, 9, 255, 256, 65535, 65536, -2147483648, 2 ** 31, 2 ** 32 - 1, 10 ** 9, 2 ** 62, -10 ** 18, 10 ** 30))
    if k < 8:
        return r.choice((0.0, -1.5, 0.5, 1e-9, 3.25, Raw(b'1' + b'0' * 320 + b'.0'), Raw(b'9' * 25), Raw(b'-.'), Raw(b'+')))
    if k < 11:
        return r.choice((b'', b'a', b'Adobe', b'\xfe\xff', b'\xfe\xff\xd8', b'\xff\xff\xff', b'\x00' * 16, b'\x00' * 32, b'0', b'12', b'x' * 300))
    if k < 15:
        return Name(r.choice(NAMES).encode('latin-1'))
    if k < 19:
        return Ref(r.choice(nums)) if nums and r.random() < 0.9 else Ref(r.choice((0, 99999, 10 ** 12)))
    if k == 19:
        if r.random() < 0.4:
            n = r.choice((3, 60, 200, 900, 3000))
            return Raw(r.choice((b'[' * n + b']' * n, b'<</A ' * n + b'1' + b'>>' * n, b'[' * n + b'/X' + b']' * n, b'[<</FontBBox' * (n // 2) + b'[]' + b'>>]' * (n // 2))))
        return r.choice(([], {}))
    if k < 23:
        return [value(r, nums, depth + 1) for _ in range(r.choice((1, 2, 3, 4, 6)))]
    return {Name(r.choice(KEYS)): value(r, nums, depth + 1) for _ in range(r.choice((1, 2, 3)))}


def string(r, b):
    """Another string, close to the bounds of what text strings may hold."""
    k = r.randrange(5)
    if k == 0:
        return b'\xfe\xff' + r.choice((b'', b'\0A', b'\0A\0B')) + r.choice((b'\0', b'\xd8', b'\xd8\0', b'\xdc\0\0A', b'\xd8\0\0A', b'\xff\xff', b'\xff\xfe\0'))
    if k == 1:
        return r.choice((b'\xef\xbb\xbf', b'\xff\xfe', b'')) + r.choice((b'\xff', b'\xc3', b'\xed\xa0\x80', b'\x80\x9f\xad', bytes(range(256))))
    if k == 2:
        return b[:r.randrange(len(b) + 1)]
    if k == 3:
        return b + r.choice((b[-1:], b'\0', b'\xfe', b * 3))
    return blur(r, b) if b else b'\0'


def slots(root, out, depth=0):
    """Every (container, key) below root."""
    if isinstance(root, Stream):
        root = root.attrs
    if depth > 12:
        return
    if isinstance(root, dict):
        out.append((root, None))
        for k, v in root.items():
            out.append((root, k))
            slots(v, out, depth + 1)
    elif isinstance(root, list):
        out.append((root, None))
        for k, v in enumerate(root):
            out.append((root, k))
            slots(v, out, depth + 1)


def copy(o):
    if isinstance(o, dict):
        return {k: copy(v) for k, v in o.items()}
    if isinstance(o, list):
        return [copy(v) for v in o]
    if isinstance(o, tuple):
        return [copy(v) for v in o]
    if isinstance(o, Stream):
        s = Stream(copy(o.attrs), o.data)
        s.__dict__.update({k: v for k, v in o.__dict__.items() if k not in ('attrs', 'data')})
        return s
    return o


def lists(o):
    """tuples -> lists in place, so that every element can be replaced"""
    if isinstance(o, dict):
        return {k: lists(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [lists(v) for v in o]
    if isinstance(o, Stream):
        o.attrs = lists(o.attrs)
    return o


def freeze(doc):
    """Make the page tree and catalogue ordinary objects of doc."""
    for n, (g, o) in list(doc.objects().items()):
        doc.objs[n] = (g, lists(o))


def structure(r, doc, n=1, obs=None, want=None):
    """Replace, remove or add n entries anywhere in the document. -> description"""
    freeze(doc)
    nums = sorted(doc.objs)
    what = []
    for _ in range(n):
        sl = []
        for num in nums:
            slots(doc.objs[num][1], sl)
        slots(doc.trailer, sl)
        if want:
            pick = [s for s in sl if s[1] is not None and key(s) in want]
            sl = pick or sl
        c, k = r.choice(sl)
        x = r.random()
        if k is None:
            if isinstance(c, dict):
                k = Name(r.choice(KEYS))
                c.pop(k.n.decode(), None)
                c[k] = value(r, nums)
            else:
                c.insert(r.randrange(len(c) + 1), value(r, nums))
                k = '+'
        elif x < 0.15:
            if isinstance(c, dict):
                c.pop(k)
            elif c:
                c.pop(k)
        elif x < 0.3 and sl:
            c2, k2 = r.choice([s for s in sl if s[1] is not None] or [(c, k)])
            try:
                c[k] = copy(c2[k2])
            except (KeyError, IndexError):
                pass
        elif x < 0.6 and isinstance(c[k], bytes):
            c[k] = string(r, c[k])
        elif x < 0.36 and isinstance(c[k], (int, float)):
            c[k] = r.choice((c[k] + 1, -c[k], c[k] * 2, c[k] * 1000003, c[k] + 0.5))
        else:
            c[k] = value(r, nums)
        what.append(key((c, k)))
        if obs is not None:
            obs.distinct('keys', key((c, k)))
    # whole objects
    if r.random() < 0.1:
        num = r.choice(nums)
        doc.objs[num] = (0, value(r, nums) if r.random() < 0.5 else Stream({}, bytes(r.randrange(256) for _ in range(20))))
    if r.random() < 0.1:
        num = r.choice(nums)
        o = doc.objs[num][1]
        if isinstance(o, Stream):
            o.data = blur(r, o.data)
    return what


def key(s):
    k = s[1]
    return k if isinstance(k, str) else ('[]' if isinstance(k, int) else (k.n.decode('latin-1') if isinstance(k, Name) else repr(k)))


OPS = b"q Q cm w J j M d ri i m l c v y h re S s f F B f* B* b b* n CS cs SC SCN sc scn G g RG rg K k BT ET Tc Tw Tz TL Tf Tr Ts Td TD Tm T* TJ Tj ' \" Do EI BI ID BMC EMC sh gs d0 d1 W W*".split()


def operand(r, depth=0):
    k = r.randrange(12)
    if k < 4:
        return r.choice((b'0', b'1', b'-1', b'2.5', b'1' + b'0' * 30, b'1' + b'0' * 320, b'.', b'-', b'99999999999'))
    if k < 6:
        return r.choice((b'/F0', b'/F1', b'/Im0', b'/Fm0', b'/Fn', b'/X', b'/', b'/DeviceRGB', b'/Pattern', b'/#ff', b'/CS0'))
    if k < 8:
        return r.choice((b'()', b'(a)', b'<ff>', b'<>', b'(\\377\\376)', b'<0001>'))
    if k == 8:
        return r.choice((b'true', b'null', b'false'))
    if depth < 3 and k == 9:
        return b'<< /A ' + operand(r, depth + 1) + b' >>'
    if depth < 3:
        return b'[ ' + b' '.join(operand(r, depth + 1) for _ in range(r.choice((0, 1, 3)))) + b' ]'
    return b'null'


def content(r, data):
    """Faults in a content stream: operands, operators, order, cuts."""
    toks = re.findall(rb'\((?:\\.|[^()\\])*\)|<[0-9A-Fa-f\s]*>|[^\s]+', data, re.S) or [b'']
    for _ in range(r.choice((1, 2, 4))):
        k = r.randrange(7)
        p = r.randrange(len(toks) + 1)
        if k == 0:
            toks.insert(p, operand(r))
        elif k == 1:
            toks.insert(p, r.choice(OPS))
        elif k == 2:
            toks[p:p + 1] = []
        elif k == 3:
            toks[p:p + 1] = [operand(r)]
        elif k == 4:
            toks[p:p + 1] = [r.choice(OPS)]
        elif k == 5:
            toks[p:p] = [operand(r) for _ in range(r.choice((1, 2, 6)))] + [r.choice(OPS)]
        else:
            toks = toks[:p]
        toks = toks or [b'']
    return b' '.join(toks)


def blur(r, data):
    """Byte faults: flips, cuts, insertions, repeated and moved pieces."""
    b = bytearray(data)
    for _ in range(r.choice((1, 1, 2, 5, 20))):
        if not b:
            b = bytearray(b'x')
        k = r.randrange(9)
        p = r.randrange(len(b))
        if k < 2:
            b[p] ^= 1 << r.randrange(8)
        elif k == 2:
            b[p] = r.choice(b'0123456789()<>[]{}/% \n\r\x00\xff\\-+.RobjstreamendW')
        elif k == 3:
            del b[p:p + r.choice((1, 1, 4, 30, 300))]
        elif k == 4:
            b[p:p] = bytes(r.choice(b'0123456789()<>[]{}/% \n\r\x00\xff\\-+.') for _ in range(r.choice((1, 2, 9))))
        elif k == 5:
            n = r.choice((3, 20, 200))
            q = r.randrange(len(b))
            b[q:q] = b[p:p + n]
        elif k == 6:
            b[p:p] = r.choice((b'<<', b'>>', b'[', b']', b'(', b')', b'stream\n', b'endstream', b'endobj', b' 0 R', b'1 0 obj', b'/Filter', b'xref\n', b'trailer', b'startxref\n0\n', b'%', b'null ', b'BI ', b'ID ', b' EI '))
        elif k == 7:
            m = [x for x in re.finditer(rb'\d+', bytes(b))]
            if m:
                x = r.choice(m)
                b[x.start():x.end()] = r.choice((b'0', b'-1', b'1', b'99999', b'4294967296', b'1' + b'0' * 25, b'2.5', b'(a)', b'/N'))
        elif r.random() < 0.3:
            del b[p:]
    return bytes(b)


def streams(doc):
    return [o for g, o in doc.objs.values() if isinstance(o, Stream)]


def is_content(s):
    return not set(s.attrs) - {'Length', 'Filter', 'Type', 'Subtype', 'BBox', 'Matrix', 'Resources'}


def faulty_content(r, doc, n=1):
    """Fault in the instructions of n content streams or forms."""
    ss = [s for s in streams(doc) if is_content(s)]
    for _ in range(n):
        if not ss:
            return
        s = r.choice(ss)
        f = s.attrs.get('Filter')
        d = s.data
        if f == Name('FlateDecode'):
            try:
                d = zlib.decompress(d)
            except zlib.error:
                continue
            s.data = zlib.compress(content(r, d))
        elif f is None:
            s.data = content(r, d)
