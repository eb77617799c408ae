"""Sanity of the independent encoders against standard-library or third-party decoders."""
import base64
import binascii
import io
import random
import struct
import zlib

from . import codecs


def tiff_g4(data, w, h):
    ent = [(256, 4, w), (257, 4, h), (258, 3, 1), (259, 3, 4), (262, 3, 0), (273, 4, 8), (277, 3, 1), (278, 4, h), (279, 4, len(data))]
    off = 8 + len(data) + len(data) % 2
    ifd = struct.pack('<H', len(ent))
    for t, ty, v in ent:
        ifd += struct.pack('<HHI', t, ty, 1) + (struct.pack('<HH', v, 0) if ty == 3 else struct.pack('<I', v))
    return b'II*\0' + struct.pack('<I', off) + data + b'\0' * (len(data) % 2) + ifd + b'\0\0\0\0'


def main():
    r = random.Random(7)
    for _ in range(200):
        d = bytes(r.choice((0, 0, 65, 255, r.randrange(256))) for _ in range(r.randrange(0, 600)))
        assert zlib.decompress(codecs.flate(d, r)) == d
        a = bytes(c for c in codecs.a85(d, r) if c not in b' \t\r\n\x00\x0c')
        assert base64.a85decode(a[:-2]) == d, a
        h = bytes(c for c in codecs.ahx(d, r) if c not in b' \t\r\n\x00\x0c')
        h = h[:h.index(b'>')]
        assert binascii.unhexlify(h + (b'0' if len(h) % 2 else b'')) == d
        for early in (0, 1):
            assert codecs.lzw_ref_decode(codecs.lzw(d, r, early=early), early=early) == d
    try:
        from PIL import Image, features
        have = features.check('libtiff')
    except ImportError:
        have = False
    if have:
        for k in range(60):
            w = r.choice((1, 7, 8, 33, 200, 2600))
            rows = []
            for y in range(r.randrange(1, 9)):
                if rows and r.random() < 0.5:
                    d = r.randrange(-3, 4)
                    rows.append([rows[-1][x - d] if 0 <= x - d < w else 0 for x in range(w)])
                else:
                    rows.append([1 if r.random() < 0.4 else 0 for _ in range(w)])
            enc = codecs.g4_encode(rows, w)
            im = Image.open(io.BytesIO(tiff_g4(enc, w, len(rows))))
            im.load()
            px = im.load()
            assert [[0 if px[x, y] else 1 for x in range(w)] for y in range(len(rows))] == rows
        print('G4 encoder agrees with libtiff')
    print('selftest ok')
    return 0
