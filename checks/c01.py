"""Object syntax: every legal spelling denotes the same value."""
from vlib.harness import Violation
from vlib.pdfgen import Doc, Style, Stream, Name, Ref
from vlib.rand import rand_obj, features, size
from vlib import lib

ID = 'C01'
LEVEL = 'exploration'
RULE = ('seeded random objects written with a random legal spelling into a valid file (classic table or object stream) '
        'and read back with the document API; a case is non-trivial when the object holds at least two values or a '
        'string/name longer than 2 bytes, counted by distinct (value, spelling)')
ASSUMPTIONS = ['the independent writer in vlib/pdfgen.py spells ISO 32000-1 7.2-7.3 syntax correctly',
               'odd-length hexadecimal strings are out of scope (a pinned test fixes their value)']
CASES = {'quick': 6000, 'thorough': 120000}
MIN = {'objects': 8000, 'strings': 3000, 'names': 3000, 'reals': 700, 'in_objstm': 1500}


def tally(o, obs):
    if isinstance(o, dict):
        for k, v in o.items():
            obs.count('names')
            tally(v, obs)
    elif isinstance(o, list):
        for v in o:
            tally(v, obs)
    elif isinstance(o, bytes):
        obs.count('strings')
        obs.peak('longest_string', len(o))
    elif isinstance(o, Name):
        obs.count('names')
    elif isinstance(o, float):
        obs.count('reals')


def case(r, i, tier, obs):
    d = Doc()
    d.page(b'')
    objs = []
    layout = 'stream' if r.random() < 0.4 else 'table'
    nobj = r.randrange(4, 11)
    base = d.n
    refs = list(range(1, base + nobj)) + [65535, 65536, r.randrange(65536, 8388608)]
    for _ in range(nobj):
        o = rand_obj(r, r.choice((0, 1, 2, 3, 4)), refs)
        if layout == 'stream' and isinstance(o, Ref):
            o = [o]     # a compressed object may not be a bare reference
        ref = d.add(o)
        objs.append((ref.num, o))
    style = Style(r, r.choice((0.2, 0.6, 0.9, 1.0)))
    packed = set(n for n, _ in objs) if layout == 'stream' else ()
    data = d.build(style=style, rng=r, layout=layout, packed=packed, eol=r.choice((b'\n', b'\r\n', b'\r')))
    obs.artifact('in.pdf', data)
    doc = lib.open_doc(data, caching=r.random() < 0.5)
    order = list(objs)
    r.shuffle(order)
    for num, o in order:
        if o is None:
            # a null object and a missing object are the same thing
            got = doc.getobj(num)
            if got is not None:
                raise Violation('object %d: expected null got %r' % (num, got))
            obs.count('objects')
            continue
        got = lib.canon(doc.getobj(num))
        want = lib.expect(o)
        dd = lib.diff(want, got)
        if dd:
            raise Violation('object %d spelled %r: %s' % (num, span(d, num), dd))
        obs.count('objects')
        if layout == 'stream':
            obs.count('in_objstm')
        tally(o, obs)
        for f in features(o):
            obs.distinct('kinds', f)
        if size(o) > 1 or (isinstance(o, (bytes, Name)) and len(getattr(o, 'n', o)) > 2):
            obs.nontrivial((want, span(d, num)))
    if i < 3:
        obs.sample({'value': repr(objs[0][1])[:300], 'spelling': repr(span(d, objs[0][0]))[:600]})


def span(d, num):
    s = d.writer.obj_spans.get(num)
    return bytes(d.writer.out[s[0]:s[1]])[:400] if s else b'(in object stream)'


def probe(name, spelled, want):
    def fn(obs):
        from vlib.pdfgen import Raw
        d = Doc()
        d.page(b'')
        ref = d.add(Raw(spelled))
        data = d.build()
        obs.artifact('in.pdf', data)
        got = lib.canon(lib.open_doc(data).getobj(ref.num))
        if got != lib.expect(want):
            raise Violation('%s: %r read as %r' % (name, spelled, got))
    return (name, fn)


PROBES = [
    probe('octal-overflow', rb'(\777\101)', b'\xffA'),
    probe('octal-short', b'(\\1\\12\\0053x\\08)', b'\x01\n\x053x\x008'),
    probe('unknown-escape', rb'(\q\8\9z)', b'q89z'),
    probe('cr-in-string', b'(a\rb\r\nc\nd)', b'a\nb\nc\nd'),
    probe('line-continuation', b'(a\\\rb\\\r\nc\\\nd)', b'abcd'),
    probe('nested-parens', b'(a(b(c)d)(())e)', b'a(b(c)d)(())e'),
    probe('nul-white-space', b'[\x001\x00/A\x00(x)\x00true\x00]', [1, Name('A'), b'x', True]),
    probe('tight', b'[/A/B(c)<64>[1]<</E<65>>>-1+2.5/F]', [Name('A'), Name('B'), b'c', b'd', [1], {Name('E'): b'e'}, -1, 2.5, Name('F')]),
    probe('hex-space', b'< 4 1\n4\r\n2 >', b'AB'),
    probe('numbers', b'[+17 -98 0 -0 34.5 -3.62 +123.6 4. -.002 0.0 .5 007]', [17, -98, 0, 0, 34.5, -3.62, 123.6, 4.0, -.002, 0.0, .5, 7]),
    probe('empty', b'[()<>[]<<>>/ ]', [b'', b'', [], {}, Name('')]),
]
