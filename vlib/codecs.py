"""Reference encoders for every stream filter (none of this imports pdfmajor)."""
import hashlib
import struct
import zlib


# ---- Flate ---------------------------------------------------------------
def flate(data, rng=None):
    if rng is None:
        return zlib.compress(data)
    level = rng.choice((0, 1, 6, 9))
    strategy = rng.choice((zlib.Z_DEFAULT_STRATEGY, zlib.Z_FILTERED, zlib.Z_HUFFMAN_ONLY, zlib.Z_FIXED))
    c = zlib.compressobj(level, zlib.DEFLATED, rng.choice((9, 12, 15)), 8, strategy)
    out = b''
    i = 0
    while i < len(data):
        n = rng.randrange(1, 3000)
        out += c.compress(data[i:i + n])
        if rng.random() < 0.2:
            out += c.flush(rng.choice((zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH)))
        i += n
    return out + c.flush()


# ---- ASCIIHex --------------------------------------------------------------
WS = (b' ', b'\n', b'\r', b'\t', b'\x0c', b'\x00', b'\r\n')


def ahx(data, rng=None, eod=True):
    out = b''
    for i, c in enumerate(data):
        h = b'%02x' % c
        if rng is not None:
            if i == len(data) - 1 and eod and (c & 15) == 0 and rng.random() < 0.5:
                h = h[:1]       # odd digit count: 0 is implied
            for d in h:
                d = bytes((d,))
                if rng.random() < 0.5:
                    d = d.upper()
                out += d
                if rng.random() < 0.1:
                    out += rng.choice(WS)
        else:
            out += h
    if eod:
        out += b'>'
    return out


# ---- ASCII85 ---------------------------------------------------------------
def a85(data, rng=None, eod=True):
    out = b''

    def put(s):
        nonlocal out
        for ch in s:
            out += bytes((ch,))
            if rng is not None and rng.random() < 0.06:
                out += rng.choice(WS)
    for i in range(0, len(data) - len(data) % 4, 4):
        v = struct.unpack('>L', data[i:i + 4])[0]
        if v == 0 and (rng is None or rng.random() < 0.8):
            put(b'z')
            continue
        s = []
        for _ in range(5):
            v, r = divmod(v, 85)
            s.append(r + 33)
        put(bytes(reversed(s)))
    tail = data[len(data) - len(data) % 4:]
    if tail:
        n = len(tail)
        v = struct.unpack('>L', tail + b'\0' * (4 - n))[0]
        s = []
        for _ in range(5):
            v, r = divmod(v, 85)
            s.append(r + 33)
        put(bytes(reversed(s))[:n + 1])
    if eod:
        out += b'~>' if rng is None or rng.random() < 0.85 else b'~' + rng.choice((b'\n', b' ')) + b'>'
    return out


# ---- RunLength -------------------------------------------------------------
def rl(data, rng=None, eod=True):
    out = bytearray()
    i = 0
    n = len(data)
    while i < n:
        run = 1
        while i + run < n and run < 128 and data[i + run] == data[i]:
            run += 1
        if run >= 2 and (rng is None or rng.random() < 0.85):
            if rng is not None and run > 2 and rng.random() < 0.3:
                run = rng.randrange(2, run + 1)
            out += bytes((257 - run, data[i]))
            i += run
            continue
        k = 1
        lim = 128 if rng is None else rng.choice((1, 2, 5, 127, 128))
        while i + k < n and k < lim:
            if i + k + 2 < n and data[i + k] == data[i + k + 1] == data[i + k + 2]:
                break
            k += 1
        out += bytes((k - 1,)) + data[i:i + k]
        i += k
    if eod:
        out += b'\x80'
    return bytes(out)


# ---- LZW -------------------------------------------------------------------
class _Bits:
    def __init__(self):
        self.acc = 0
        self.n = 0
        self.out = bytearray()

    def put(self, v, w):
        self.acc = (self.acc << w) | v
        self.n += w
        while self.n >= 8:
            self.n -= 8
            self.out.append((self.acc >> self.n) & 255)
        self.acc &= (1 << self.n) - 1

    def done(self):
        if self.n:
            self.out.append((self.acc << (8 - self.n)) & 255)
            self.n = 0
            self.acc = 0
        return bytes(self.out)


def lzw(data, rng=None, early=1, clear_first=True, eod=True, stats=None):
    """early=1: code length grows one code early (PDF default EarlyChange 1)."""
    b = _Bits()
    table = {bytes((i,)): i for i in range(256)}
    nxt = 258
    w = 9
    b.put(256, w)
    reset = rng.choice((0, 0, 0.0004, 0.002, 0.01)) if rng is not None else 0
    limit = rng.choice((4094, 4094, 4095, 4096, 4096, rng.randrange(600, 4094))) if rng is not None else 4094
    cur = b''
    maxw = 9
    for i, c in enumerate(data):
        ch = bytes((c,))
        if cur + ch in table:
            cur += ch
            continue
        b.put(table[cur], w)
        table[cur + ch] = nxt
        nxt += 1
        # The decoder is one table entry behind the encoder.
        if nxt - 1 + early >= (1 << w) and w < 12:
            w += 1
            maxw = max(maxw, w)
        cur = ch
        if nxt >= limit or (reset and rng.random() < reset):
            b.put(table[cur], w)
            # after emitting cur the decoder has one more entry
            if nxt + early >= (1 << w) and w < 12:
                w += 1
            b.put(256, w)
            table = {bytes((k,)): k for k in range(256)}
            nxt = 258
            w = 9
            cur = b''
    if cur:
        b.put(table[cur], w)
        if nxt + early >= (1 << w) and w < 12:
            w += 1
    if eod:
        b.put(257, w)
    if stats is not None:
        stats['maxw'] = maxw
    return b.done()


def lzw_ref_decode(data, early=1):
    """Straight transcription of the PDF/TIFF rules, to validate the encoder."""
    bits = ''.join('{:08b}'.format(c) for c in data)
    pos = 0
    w = 9
    table = None
    prev = None
    out = b''
    while pos + w <= len(bits):
        code = int(bits[pos:pos + w], 2)
        pos += w
        if code == 256:
            table = {i: bytes((i,)) for i in range(256)}
            nxt = 258
            w = 9
            prev = None
            continue
        if code == 257:
            break
        if prev is None:
            e = table[code]
        else:
            if code in table:
                e = table[code]
            else:
                assert code == nxt
                e = prev + prev[:1]
            table[nxt] = prev + e[:1]
            nxt += 1
        out += e
        prev = e
        # size of table so far determines the width of the next code
        if nxt + early >= (1 << w) and w < 12:
            w += 1
    return out


# ---- PNG predictors ----------------------------------------------------------
def paeth(a, b, c):
    p = a + b - c
    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
    if pa <= pb and pa <= pc:
        return a
    if pb <= pc:
        return b
    return c


def png_encode(data, colors, columns, bpc, pick):
    """pick(row_index) -> filter type 0..4. data must be whole rows."""
    rowlen = (colors * columns * bpc + 7) // 8
    bpp = max(1, (colors * bpc + 7) // 8)
    out = bytearray()
    prev = bytes(rowlen)
    for r in range(0, len(data), rowlen):
        row = data[r:r + rowlen]
        ft = pick(r // rowlen)
        out.append(ft)
        for i, x in enumerate(row):
            a = row[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            pr = (0, a, b, (a + b) // 2, paeth(a, b, c))[ft]
            out.append((x - pr) & 255)
        prev = row
    return bytes(out)


# ---- RC4 -------------------------------------------------------------------
def rc4(key, data):
    s = list(range(256))
    j = 0
    for i in range(256):
        j = (j + s[i] + key[i % len(key)]) & 255
        s[i], s[j] = s[j], s[i]
    i = j = 0
    out = bytearray()
    for c in data:
        i = (i + 1) & 255
        j = (j + s[i]) & 255
        s[i], s[j] = s[j], s[i]
        out.append(c ^ s[(s[i] + s[j]) & 255])
    return bytes(out)


# ---- CCITT G4 ----------------------------------------------------------------
WHITE_TERM = """00110101 000111 0111 1000 1011 1100 1110 1111 10011 10100 00111 01000 001000 000011 110100 110101
101010 101011 0100111 0001100 0001000 0010111 0000011 0000100 0101000 0101011 0010011 0100100 0011000 00000010 00000011
00011010 00011011 00010010 00010011 00010100 00010101 00010110 00010111 00101000 00101001 00101010 00101011 00101100
00101101 00000100 00000101 00001010 00001011 01010010 01010011 01010100 01010101 00100100 00100101 01011000 01011001
01011010 01011011 01001010 01001011 00110010 00110011 00110100""".split()
BLACK_TERM = """0000110111 010 11 10 011 0011 0010 00011 000101 000100 0000100 0000101 0000111 00000100 00000111 000011000
0000010111 0000011000 0000001000 00001100111 00001101000 00001101100 00000110111 00000101000 00000010111 00000011000
000011001010 000011001011 000011001100 000011001101 000001101000 000001101001 000001101010 000001101011 000011010010
000011010011 000011010100 000011010101 000011010110 000011010111 000001101100 000001101101 000011011010 000011011011
000001010100 000001010101 000001010110 000001010111 000001100100 000001100101 000001010010 000001010011 000000100100
000000110111 000000111000 000000100111 000000101000 000001011000 000001011001 000000101011 000000101100 000001011010
000001100110 000001100111""".split()
WHITE_MAKE = """11011 10010 010111 0110111 00110110 00110111 01100100 01100101 01101000 01100111 011001100 011001101
011010010 011010011 011010100 011010101 011010110 011010111 011011000 011011001 011011010 011011011 010011000 010011001
010011010 011000 010011011""".split()
BLACK_MAKE = """0000001111 000011001000 000011001001 000001011011 000000110011 000000110100 000000110101 0000001101100
0000001101101 0000001001010 0000001001011 0000001001100 0000001001101 0000001110010 0000001110011 0000001110100
0000001110101 0000001110110 0000001110111 0000001010010 0000001010011 0000001010100 0000001010101 0000001011010
0000001011011 0000001100100 0000001100101""".split()
EXT_MAKE = """00000001000 00000001100 00000001101 000000010010 000000010011 000000010100 000000010101 000000010110
000000010111 000000011100 000000011101 000000011110 000000011111""".split()
VERT = {0: '1', 1: '011', 2: '000011', 3: '0000011', -1: '010', -2: '000010', -3: '0000010'}
assert len(WHITE_TERM) == 64 and len(BLACK_TERM) == 64 and len(WHITE_MAKE) == 27 and len(BLACK_MAKE) == 27


def _run(color, n):
    out = ''
    term, make = (WHITE_TERM, WHITE_MAKE) if color == 0 else (BLACK_TERM, BLACK_MAKE)
    while n >= 2560:
        out += EXT_MAKE[12]
        n -= 2560
    if n >= 1792:
        k = (n - 1792) // 64
        out += EXT_MAKE[k]
        n -= 1792 + 64 * k
    elif n >= 64:
        k = n // 64
        out += make[k - 1]
        n -= 64 * k
    return out + term[n]


def g4_encode(rows, width, eofb=True, align=False, modes=None):
    """rows: lists of 0 (white) / 1 (black). T.6 two-dimensional coding.
    modes: dict counting the coding modes used."""
    bits = []
    ref = [0] * width

    def changes(row):
        ch = []
        prev = 0
        for i, v in enumerate(row):
            if v != prev:
                ch.append(i)
                prev = v
        return ch
    for row in rows:
        refc = changes(ref)
        a0 = -1
        color = 0
        s = ''
        while a0 < width:
            st = max(a0, 0)
            # a1: next pixel of opposite colour right of a0
            a1 = st if a0 >= 0 else 0
            if a0 < 0:
                a1 = 0
            while a1 < width and row[a1] == color:
                a1 += 1
            # b1: first changing element on ref to the right of a0, of colour opposite to `color`
            b1 = width
            for k, p in enumerate(refc):
                newcol = 1 - (k & 1)      # colour starting at p
                if p > a0 and newcol != color:
                    b1 = p
                    break
            b2 = width
            for p in refc:
                if p > b1:
                    b2 = p
                    break
            if b2 < a1:
                s += '0001'
                a0 = b2
                m = 'P'
            elif abs(a1 - b1) <= 3:
                s += VERT[a1 - b1]
                a0 = a1
                color ^= 1
                m = 'V%d' % (a1 - b1)
            else:
                a2 = a1
                while a2 < width and row[a2] != color:
                    a2 += 1
                s += '001' + _run(color, a1 - st) + _run(color ^ 1, a2 - a1)
                a0 = a2
                m = 'H'
            if modes is not None:
                modes[m] = modes.get(m, 0) + 1
        if align and len(s) % 8:
            # byte alignment: pad *before* each line so that it ends on a boundary
            s = s + '0' * (-len(s) % 8)
        bits.append(s)
        ref = row
    t = ''.join(bits)
    if eofb:
        t += '000000000001' * 2
    t += '0' * (-len(t) % 8)
    return int(t, 2).to_bytes(len(t) // 8, 'big') if t else b''


def pack_rows(rows, blackis1=False):
    """What a decoder must return: rows padded to bytes; 0=black unless BlackIs1."""
    out = bytearray()
    for r in rows:
        acc = 0
        n = 0
        for v in r:
            bit = v if blackis1 else 1 - v
            acc = acc * 2 + bit
            n += 1
            if n == 8:
                out.append(acc)
                acc = n = 0
        if n:
            out.append(acc << (8 - n))
    return bytes(out)
