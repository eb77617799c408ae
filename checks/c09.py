"""Opening an encrypted file with a right password is transparent."""
from vlib.harness import Violation
from vlib.pdfgen import Style, Stream, Name, Ref, Writer, Revision
from vlib.rand import rand_obj, rand_bytes
from vlib import lib, crypt, pdfgen

ID = 'C09'
LEVEL = 'exploration'
RULE = ('random documents (strings everywhere, streams with string attributes, object streams, generations above zero, text pages) encrypted by an '
        'independent encryptor with every algorithm, opened with user, owner and (when empty) no password; every object and the page text compared with '
        'the plain model; non-trivial when a string or stream was really encrypted, counted by distinct (algorithm, password kind, file)')
ASSUMPTIONS = ['the encryptor shares only the AES block primitive with the code under test',
               'string and stream filters are the same, as the library requires',
               'strings in metadata streams of files with EncryptMetadata false are not compared']
CASES = {'quick': 3000, 'thorough': 40000}
MIN = {'opens': 3000, 'objects': 30000, 'default_password': 300, 'owner': 800, 'text': 800, 'gen': 500, 'far': 300, 'unsigned_p': 300, 'noid': 20, 'plain': 1500,
       'nometa': 100, 'rc4-40': 150, 'rc4': 150, 'v4-rc4': 150, 'v4-aes': 150, 'v4-identity': 60, 'v5-aes': 150, 'v5-identity': 60}


def rand_password(r, v5):
    k = r.random()
    if k < 0.25:
        return ''
    if k < 0.6:
        return ''.join(r.choice('abcXYZ019 !(') for _ in range(r.randrange(1, 12)))
    if k < 0.75:
        return ''.join(r.choice('ab\u00e9\u00fc\u00ff\u00a3') for _ in range(r.choice((r.randrange(1, 20), r.randrange(1, 100)))))
    if k < 0.9:
        return ''.join(r.choice('abcdefgh') for _ in range(r.choice((31, 32, 33, 40, 126, 127, 130))))
    if v5:
        # cut after 127 bytes of UTF-8, perhaps within a character
        return ''.join(r.choice('\u4e2d\u0416z') for _ in range(r.choice((r.randrange(1, 50), r.randrange(45, 140)))))
    return '(\xbfN^Nu\x8aA'[:r.randrange(1, 9)]


def make(r, obs=None, alg=None, user=None, owner=None, p=None, style=None, twist=None, plain=None):
    """-> (bytes, model, enc, user, owner, text[, {number: what is never encrypted}])"""
    alg = alg or r.choice(('rc4-40', 'rc4', 'rc4', 'v4-rc4', 'v4-aes', 'v4-aes', 'v4-identity', 'v5-aes', 'v5-aes', 'v5-identity'))
    user = rand_password(r, alg.startswith('v5')) if user is None else user
    owner = rand_password(r, alg.startswith('v5')) if owner is None else owner
    if owner == '' and alg[:2] != 'v5':
        owner = user        # no owner password: the user password serves
    p = r.choice((-4, -1, -3904, -44, -64, -20, -8, 4, 0, -2 ** 31, r.randrange(-2 ** 31, 2 ** 31))) if p is None else p
    unsigned = r.random() < 0.3
    meta = r.random() < 0.75 or not alg.startswith('v4')
    noid = r.random() < 0.1 and alg != 'v4-identity'
    n = 8 + r.randrange(0, 9)
    encnum = n + 1 if r.random() < 0.6 else None
    bits = r.choice((40, 48, 56, 64, 80, 96, 104, 120, 128, 128, 128))
    e = crypt.Enc(r, alg, user, owner, p, id0=r.choice((None, None, b'x', r.randbytes(40))), bits=bits, meta=meta, unsigned=unsigned,
                  num=encnum, noid=noid)
    if twist is not None:
        twist(e)
    style = style or Style(r, r.choice((0.0, 0.4)))
    objs = {1: (0, {'Type': Name('Catalog'), 'Pages': Ref(2), 'S': rand_bytes(r, 9)}),
            2: (0, {'Type': Name('Pages'), 'Kids': [Ref(3)], 'Count': 1}),
            3: (0, {'Type': Name('Page'), 'Parent': Ref(2), 'MediaBox': [0, 0, 300, 300], 'Contents': Ref(4),
                    'Resources': {'Font': {'F': Ref(5)}}})}
    text = ''.join(r.choice('abcdefgh XYZ') for _ in range(r.randrange(1, 20)))
    content = b'BT /F 10 Tf 10 10 Td ' + style.string(text.encode()) + b' Tj ET'
    objs[4] = (0, Stream({}, content))
    objs[5] = (0, dict(pdfgen.HELV))
    objs[6] = (0, {'Title': rand_bytes(r, 12), 'Author': b''})
    far = {}
    for m in range(7, n + 1):
        if r.random() < 0.1:
            m = far[m] = r.choice((255, 256, 300, 65535, 65536, 70000, 0x123456, 2 ** 22)) + m
        gen = r.choice((0, 0, 0, 1, 7, 300, 65534))
        if gen and obs is not None:
            obs.count('gen')
        k = r.random()
        if k < 0.4:
            attrs = {'S': rand_bytes(r, r.randrange(0, 20)), 'L': [rand_bytes(r, 3), {'k': rand_bytes(r, 17)}]}
            if r.random() < 0.15:
                attrs = {'Type': Name('Metadata'), 'Subtype': Name('XML')}
            objs[m] = (gen, Stream(attrs, rand_bytes(r, r.choice((0, 1, 15, 16, 17, 32, 100, 1000)))))
        elif k < 0.6:
            objs[m] = (gen, rand_bytes(r, r.choice((0, 1, 15, 16, 17, 31, 32, 33, 200))))
        else:
            objs[m] = (gen, [rand_bytes(r, 5), rand_obj(r, 2), {'Deep': [{'S': rand_bytes(r, 8)}]}])
    layout = r.choice(('table', 'table', 'stream', 'hybrid'))
    packed = set(m for m in objs if r.random() < r.choice((0, 0.4, 1.0)) and m != encnum)
    w = Writer(style=style, enc=e, eol=r.choice((b'\n', b'\r\n')))
    full = dict(objs)
    if encnum:
        full[encnum] = (0, e.dict)
    w.max_num = max(max(full), n + 1)
    if far and obs is not None:
        obs.count('far')
    tr = {'Root': Ref(1), 'Info': Ref(6)}
    tr.update(e.trailer())
    w.revision(Revision(full, layout=layout, packed=packed, trailer=tr), r)
    if obs is not None:
        obs.count(alg)
        if unsigned and p < 0:
            obs.count('unsigned_p')
        if noid:
            obs.count('noid')
        if not meta:
            obs.count('nometa')
    if plain is not None:
        plain.update(w.xstreams)
        if encnum:
            plain[encnum] = e.dict
    return w.bytes(), {k: v for k, (g, v) in objs.items()}, e, user, owner, text


def case(r, i, tier, obs):
    plain = {}
    data, model, e, user, owner, text = make(r, obs, plain=plain)
    obs.artifact('in.pdf', data)
    if i < 2:
        obs.sample({'alg': e.alg, 'user': user, 'owner': owner, 'bytes': len(data)})
    for kind, pw in (('user', user), ('owner', owner), ('default', None)):
        if kind == 'default' and user != '':
            continue
        caching = r.random() < 0.7
        if kind == 'default':
            doc = lib.open_doc(data, caching=caching)
            obs.count('default_password')
        else:
            doc = lib.open_doc(data, password=pw, caching=caching)
        obs.count('opens')
        if kind == 'owner':
            obs.count('owner')
        order = list(model)
        r.shuffle(order)
        for m in order:
            got = lib.canon(doc.getobj(m))
            d = lib.diff(lib.expect(model[m]), got)
            if d:
                raise Violation('%s with %s password: object %d: %s' % (e.alg, kind, m, d))
            obs.count('objects')
        for m, v in plain.items():
            obs.count('plain')
            if isinstance(v, tuple):
                o = doc.getobj(m)
                got = {k: lib.canon(o.attrs.get(k)) for k in v[0]}
                d = lib.diff({k: lib.expect(x) for k, x in v[0].items()}, got)
                if not d and o.get_data() != v[1]:
                    d = 'the data'
            else:
                d = lib.diff(lib.expect(v), lib.canon(doc.getobj(m)))
            if d:
                raise Violation('%s with %s password: object %d, which is never encrypted: %s' % (e.alg, kind, m, d))
        d = lib.diff(lib.expect(model[6]), lib.canon(doc.info[0]))
        if d:
            raise Violation('%s with %s password: info: %s' % (e.alg, kind, d))
        d = lib.diff(lib.expect(model[1]), lib.canon(doc.catalog))
        if d:
            raise Violation('%s with %s password: catalog: %s' % (e.alg, kind, d))
        obs.nontrivial((e.alg, kind, data))
        if r.random() < 0.5:
            kw = {} if kind == 'default' else {'password': pw}
            its = lib.items(data, check_extractable=False, caching=caching, **kw)
            got = ''.join(lib.text_of(x) for x in its)
            if got != text:
                raise Violation('%s with %s password: text %r expected %r' % (e.alg, kind, got, text))
            obs.count('text')
