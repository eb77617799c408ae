"""Standard security handler, writing side (ISO 32000-1 7.6, plus AES-256 revision 5).

Independent of the code under test; shares only the AES block primitive.
"""
import hashlib
import struct

from Crypto.Cipher import AES

from .codecs import rc4
from .pdfgen import Name, Ref

PAD = bytes.fromhex('28BF4E5E4E758A4164004E56FFFA01082E2E00B6D0683E802F0CA9FE6453697A')
ALGS = ('rc4-40', 'rc4', 'v4-rc4', 'v4-aes', 'v4-identity', 'v5-aes', 'v5-identity')


def md5(b):
    return hashlib.md5(b).digest()


def pad(pw):
    return (pw + PAD)[:32]


class Enc:
    def __init__(self, r, alg, user='', owner='', p=-4, id0=None, bits=128, meta=True, unsigned=False, num=None, noid=False):
        self.r = r
        self.alg = alg
        self.p = p
        self.meta = meta
        self.num = num
        self.noid = noid
        self.id0 = b'' if noid else (id0 if id0 is not None else r.randbytes(16))
        self.v, self.rev = {'rc4-40': (1, 2), 'rc4': (2, 3), 'v4-rc4': (4, 4), 'v4-aes': (4, 4), 'v4-identity': (4, 4),
                            'v5-aes': (5, 5), 'v5-identity': (5, 5)}[alg]
        self.n = {1: 5, 2: bits // 8, 4: 16, 5: 32}[self.v]
        d = {'Filter': Name('Standard'), 'V': self.v, 'R': self.rev, 'P': (p & 0xffffffff) if unsigned else p}
        if self.v == 5:
            u, o = user.encode('utf-8')[:127], owner.encode('utf-8')[:127]
            self.key = r.randbytes(32)
            vs, ks = r.randbytes(8), r.randbytes(8)
            d['U'] = hashlib.sha256(u + vs).digest() + vs + ks
            d['UE'] = self._cbc0(hashlib.sha256(u + ks).digest(), self.key)
            vs, ks = r.randbytes(8), r.randbytes(8)
            d['O'] = hashlib.sha256(o + vs + d['U']).digest() + vs + ks
            d['OE'] = self._cbc0(hashlib.sha256(o + ks + d['U']).digest(), self.key)
            d['Perms'] = AES.new(self.key, AES.MODE_ECB).encrypt(struct.pack('<I', p & 0xffffffff) + b'\xff' * 4
                                                                 + (b'T' if meta else b'F') + b'adb' + r.randbytes(4))
        else:
            u, o = user.encode('latin-1'), (owner or user).encode('latin-1')
            h = md5(pad(o))
            if self.rev >= 3:
                for _ in range(50):
                    h = md5(h)
            k = h[:self.n]
            x = rc4(k, pad(u))
            if self.rev >= 3:
                for i in range(1, 20):
                    x = rc4(bytes(c ^ i for c in k), x)
            d['O'] = x
            h = pad(u) + d['O'] + struct.pack('<I', p & 0xffffffff) + self.id0
            if self.rev >= 4 and not meta:
                h += b'\xff' * 4
            h = md5(h)
            if self.rev >= 3:
                for _ in range(50):
                    h = md5(h[:self.n])
            self.key = h[:self.n]
            if self.rev == 2:
                d['U'] = rc4(self.key, PAD)
            else:
                x = rc4(self.key, md5(PAD + self.id0))
                for i in range(1, 20):
                    x = rc4(bytes(c ^ i for c in self.key), x)
                d['U'] = x + r.randbytes(16)
        if self.v == 2 and (bits != 40 or r.random() < 0.5):
            d['Length'] = bits
        if self.v >= 4:
            if r.random() < 0.7:
                d['Length'] = self.n * 8
            cfm = {'v4-rc4': 'V2', 'v4-aes': 'AESV2', 'v5-aes': 'AESV3'}.get(alg)
            d['CF'] = {}
            name = 'Identity'
            if cfm:
                name = r.choice(('StdCF', 'StdCF', 'MyCF'))
                d['CF'][name] = {'CFM': Name(cfm), 'AuthEvent': Name('DocOpen'), 'Length': self.n}
            d['StmF'] = d['StrF'] = Name(name)
            if not meta:
                d['EncryptMetadata'] = False
        self.dict = d

    @staticmethod
    def _cbc0(k, data):
        return AES.new(k, AES.MODE_CBC, IV=bytes(16)).encrypt(data)

    def trailer(self):
        t = {'Encrypt': Ref(self.num) if self.num else self.dict}
        if not self.noid:
            # the second part changes with every update
            t['ID'] = [self.id0, self.id0 if self.r.random() < 0.3 else self.r.randbytes(16)]
        return t

    def _crypt(self, num, gen, b):
        if self.alg.endswith('identity'):
            return b
        k = self.key
        if self.v < 5:
            k = k + struct.pack('<I', num)[:3] + struct.pack('<I', gen)[:2]
            if self.alg == 'v4-aes':
                k += b'sAlT'
            k = md5(k)[:min(16, self.n + 5)]
        if self.alg in ('v4-aes', 'v5-aes'):
            iv = self.r.randbytes(16)
            n = 16 - len(b) % 16
            return iv + AES.new(k, AES.MODE_CBC, IV=iv).encrypt(b + bytes((n,)) * n)
        return rc4(k, b)

    def string(self, num, gen, b):
        return self._crypt(num, gen, b)

    def stream(self, num, gen, attrs, b):
        t = attrs.get('Type')
        if not self.meta and t == Name('Metadata'):
            return b
        return self._crypt(num, gen, b)
