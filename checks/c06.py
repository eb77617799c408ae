"""Decoding a filter chain inverts encoding."""
from vlib.harness import Violation
from vlib.pdfgen import Style, Stream, Name, Ref, Writer, Revision
from vlib.rand import rand_bytes
from vlib import lib, codecs

ID = 'C06'
LEVEL = 'exploration'
RULE = ('random data through random chains of 1-4 independent encoders with random encoder choices; parameters as dictionary, array, null, '
        'indirect; decoded bytes compared with the source; a case is non-trivial when it has data and a filter, counted by distinct encoded streams')
ASSUMPTIONS = ['encoders are independent of the code under test and validated by run.py selftest']
CASES = {'quick': 5000, 'thorough': 60000}
MIN = {'streams': 15000, '#chains': 400, 'LZW': 5000, 'early0': 1500, 'lzw12': 40, 'trailing': 5000, 'indirect': 8000, 'abbrev': 8000}

FULL = {'Fl': 'FlateDecode', 'LZW': 'LZWDecode', 'A85': 'ASCII85Decode', 'AHx': 'ASCIIHexDecode', 'RL': 'RunLengthDecode'}


def rand_data(r, big):
    n = r.choice((0, 1, 2, 3, 4, 5, 17, 100, 400))
    k = r.random()
    if big:
        n = r.choice((3000, 6000, 12000, 30000))
        if r.random() < 0.7:
            return r.randbytes(n)
    if k < 0.25:
        return rand_bytes(r, n)
    if k < 0.45:
        return bytes([r.choice((0, 255, 65))]) * n
    if k < 0.7:
        unit = rand_bytes(r, r.randrange(1, 9))
        return (unit * n)[:n]
    if k < 0.85:
        out = b''
        while len(out) < n:
            out += bytes([r.choice((0, 1, 128, 255, r.randrange(256)))]) * r.choice((1, 1, 2, 3, 4, 127, 128, 129, 256))
        return out[:n]
    return r.randbytes(n)


def encode(r, f, data, obs):
    """-> encoded, params"""
    params = {}
    if f == 'Fl':
        enc = codecs.flate(data, r)
        if r.random() < 0.1:
            enc += r.choice((b'\n', b'\r\n', b'\x00'))
            obs.count('trailing')
        return enc, params
    if f == 'LZW':
        early = 1
        obs.count('LZW')
        if r.random() < 0.5:
            early = r.choice((0, 0, 1))
            params['EarlyChange'] = early
        if early == 0:
            obs.count('early0')
        st = {}
        enc = codecs.lzw(data, r, early=early, stats=st)
        if st['maxw'] == 12:
            obs.count('lzw12')
        if r.random() < 0.25:
            enc += r.randbytes(r.randrange(1, 9))
            obs.count('trailing')
        return enc, params
    junk = b''
    if r.random() < 0.25:
        junk = r.choice((b'\n', b'  ', b'zz', b'junk<~!~>', b'41', r.randbytes(5), b'>'))
        obs.count('trailing')
    if f == 'A85':
        return codecs.a85(data, r) + junk, params
    if f == 'AHx':
        return codecs.ahx(data, r) + junk, params
    return codecs.rl(data, r) + junk, params


def case(r, i, tier, obs):
    style = Style(r, r.choice((0.0, 0.5)))
    w = Writer(style=style)
    objs = {1: {'Type': Name('Catalog')}}
    model = {}
    spare = [200]

    def ind(v, p=0.2):
        if r.random() < p:
            spare[0] += 1
            objs[spare[0]] = v
            obs.count('indirect')
            return Ref(spare[0])
        return v
    big = i % 25 == 0
    for m in range(2, 3 if big else 6):
        data = rand_data(r, big)
        n = r.choice((1, 1, 1, 2, 2, 3, 4)) if not big else 1
        chain = [r.choice(list(FULL)) for _ in range(n)]
        if big:
            chain = [r.choice(('LZW', 'LZW', 'Fl'))]
        enc = data
        params = []
        for f in reversed(chain):
            enc, p = encode(r, f, enc, obs)
            params.insert(0, p)
        names = []
        for f in chain:
            if r.random() < 0.3:
                obs.count('abbrev')
                names.append(Name(f))
            else:
                names.append(Name(FULL[f]))
        attrs = {}
        if n == 1 and r.random() < 0.6:
            attrs['Filter'] = ind(names[0])
            if params[0] or r.random() < 0.2:
                attrs['DecodeParms'] = ind({k: ind(v) for k, v in params[0].items()})
        else:
            attrs['Filter'] = ind([ind(x) for x in names])
            if any(params) or r.random() < 0.2:
                attrs['DecodeParms'] = ind([ind({k: ind(v) for k, v in p.items()}) if p or r.random() < 0.3 else None for p in params])
        objs[m] = Stream(attrs, enc)
        model[m] = (chain, data)
        obs.count('streams')
        obs.distinct('chains', tuple(chain))
        if data:
            obs.nontrivial((tuple(chain), enc))
    w.max_num = max(objs)
    w.revision(Revision({a: (0, v) for a, v in objs.items()}, trailer={'Root': Ref(1)}), r)
    pdf = w.bytes()
    obs.artifact('in.pdf', pdf)
    doc = lib.open_doc(pdf)
    for m, (chain, data) in model.items():
        got = doc.getobj(m).get_data()
        if got != data:
            raise Violation('chain %s (%r): got %d bytes %s, encoded %d bytes %s' % (
                chain, objs[m].attrs, len(got), lib.short(got), len(data), lib.short(data)))
    if i < 2:
        obs.sample([[c, lib.short(d)] for c, d in model.values()])
