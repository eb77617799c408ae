"""Values do not depend on block boundaries, token length or read sizes."""
import io
import re

from vlib.harness import Violation
from vlib.pdfgen import Doc, Style, Stream, Name, Ref, Raw, Writer, Revision
from vlib.rand import rand_obj, rand_bytes, size
from vlib import lib

ID = 'C02'
LEVEL = 'exploration'
RULE = ('an object (or content program, table, trailer) whose bytes are shifted so that a chosen token byte falls on a multiple of the '
        '4096-byte block, or read through a file object that returns short reads; a case is non-trivial when the shifted token is not '
        'white space, counted by distinct (bytes around the boundary, offset)')
ASSUMPTIONS = ['the independent writer spells ISO 32000-1 syntax correctly',
               'short reads are injected only after opening and only for stream-free documents (a raw payload read may legitimately be '
               'one read call)']
CASES = {'quick': 1600, 'thorough': 24000}
MIN = {'boundaries': 6000, 'short_reads': 4000, 'objstm_boundaries': 200, 'content_boundaries': 60, 'table_boundaries': 60, 'inline_boundaries': 80, 'inline_blocks': 40,
       'tail_boundaries': 60, 'long_tokens': 100, '#cut_bytes': 80}
BLK = 4096


def filler(r, n):
    """n bytes that denote nothing: white space and comments, then a separator."""
    if n <= 0:
        return b''
    k = r.randrange(3)
    if k == 0:
        return b' ' * n
    if k == 1:
        return bytes(r.choice(b' \t\n\r\x0c\x00') for _ in range(n))
    out = b''
    while len(out) < n - 2:
        m = min(n - 2 - len(out), r.randrange(0, 200))
        out += b'%' + bytes(r.choice(b'abc()<>[]/%\\ 12') for _ in range(m)) + b'\n'
    return (out + b' ' * n)[:n - 1] + b'\n'


def values(r, n):
    return [rand_obj(r, 2) for _ in range(n)]


def note(obs, data, p, what):
    obs.count('boundaries')
    obs.distinct('cut_bytes', data[p:p + 1])
    ctx = data[p - 3:p + 3]
    if ctx.strip():
        obs.nontrivial((what, ctx))


def check(doc, num, want, obs, info):
    got = lib.canon(doc.getobj(num))
    d = lib.diff(lib.expect(want), got)
    if d:
        raise Violation('object %d (%s): %s' % (num, info, d))


def shifted_objects(r, tier, obs):
    """Token bytes of one spelled sequence placed on block boundaries, one object per offset."""
    d = Doc()
    d.page(b'')
    st = Style(r, r.choice((0.3, 0.8, 1.0)))
    vals = values(r, r.randrange(3, 8))
    body = st.join([t for v in vals for t in st.tokens(v)])
    packed = r.random() < 0.35
    offs = list(range(len(body)))
    lim = 24 if tier == 'quick' else 160
    if len(offs) > lim:
        offs = sorted(r.sample(offs, lim))
    want = []
    for o in offs:
        if o > BLK - 60:
            continue
        head = 0 if packed else len(b'%d 0 obj[' % (d.n + 1))
        # the boundary is counted from the start of the object, or of the whole object stream
        pad = BLK - head - o
        ref = d.add(Raw(b'[' + filler(r, pad) + body + b']'))
        want.append((ref.num, o, pad))
    if packed:
        # only the first object of each object stream has a known position: one object per stream
        w = Writer(eol=b'\n')
        objs = d.objects()
        w.max_num = max(objs)
        fixed = {}
        for num, o, pad in want:
            first = len(b'%d 0 ' % num)
            fixed[num] = (0, Raw(b'[' + filler(r, BLK - first - 1 - o) + body + b']'))
        for num in fixed:
            objs[num] = fixed[num]
        rev = Revision(objs, layout='stream', packed=set(fixed), trailer=d.trailer, nobjstm=max(1, len(fixed)),
                       xref_filter=r.random() < 0.5)
        w.keep_order = True
        w.revision(rev)
        data = w.bytes()
    else:
        w = Writer(eol=r.choice((b'\n', b'\r\n')))
        objs = d.objects()
        w.max_num = max(objs)
        w.revision(Revision(objs, trailer=d.trailer))
        data = w.bytes()
        for num, o, pad in want:
            p = w.obj_spans[num][0] + BLK
            assert data[p:p + 4] == (body + b']')[o:o + 4] or len(body) - o < 4, (o, body[o:o + 4], data[p - 4:p + 4])
    obs.artifact('in.pdf', data)
    doc = lib.open_doc(data)
    for num, o, pad in want:
        check(doc, num, vals, obs, 'token byte %d of %r on a block boundary' % (o, body[max(0, o - 20):o + 20]))
        note(obs, body, o, 'obj')
        if packed:
            obs.count('objstm_boundaries')


def long_tokens(r, tier, obs):
    d = Doc()
    d.page(b'')
    st = Style(r, r.choice((0.0, 0.5, 1.0)))
    want = []
    for _ in range(4):
        n = r.choice((BLK - 1, BLK, BLK + 1, 2 * BLK, 2 * BLK + 1, 9000, r.randrange(3000, 13000), r.randrange(13000, 70000)))
        k = r.randrange(5)
        if k == 0:
            v = rand_bytes(r, n)
        elif k == 1:
            v = Name(bytes(r.choice(b'abcXYZ019#/ ') for _ in range(n)))
        elif k == 2:
            v = [7] * (n // 2)
        elif k == 3:
            v = {Name(b'k%d' % j): j for j in range(n // 8)}
        else:
            v = [b'x' * n, Name(b'y' * n), n]
        if r.random() < 0.3:
            # one comment, one hexadecimal or one escaped string as long as that
            m = r.choice((n, 4 * n))
            com = b'%' + bytes(r.choice(b'abc()<>[]/% 12') for _ in range(64)) * (m // 64) + r.choice((b'\n', b'\r'))
            b = rand_bytes(r, min(m, 80000))
            v = [b, 5]
            hexed = b.hex().encode()
            lit = b''.join(b'\\%03o' % c for c in b)
            v, t = r.choice((([b, 5], b'[<' + hexed + b'>5]'), ([b, 5], b'[(' + lit + b')5]'), ([1, 2], b'[1 ' + com + b'2]'),
                             ([b, 6], b'[<' + hexed[:m // 2] + b'\n' + hexed[m // 2:] + b'>' + com + b' 6]')))
            ref = d.add(Raw(t))
            want.append((ref.num, v))
            obs.count('long_tokens')
            obs.nontrivial(('spelled', t[:9], m))
            continue
        ref = d.add(v)
        want.append((ref.num, v))
        obs.count('long_tokens')
        obs.nontrivial((k, n))
    data = d.build(style=st, rng=r)
    obs.artifact('in.pdf', data)
    doc = lib.open_doc(data)
    for num, v in want:
        check(doc, num, v, obs, 'long token')


class ShortReader(io.BytesIO):
    def __init__(self, data, r):
        io.BytesIO.__init__(self, data)
        self.r = r
        self.on = False
        self.n = 0
        self.mode = r.choice((1, 2, 7, 60, 0))

    def read(self, n=-1):
        if self.on and n is not None and n > 1:
            self.n += 1
            m = self.mode or self.r.choice((1, 2, 3, 17, 100, n))
            n = min(n, m)
        return io.BytesIO.read(self, n)


def short_reads(r, tier, obs):
    d = Doc()
    d.objs[d.alloc()] = (0, {'Type': Name('Page'), 'Parent': Ref(d.pages_num)})
    want = []
    for _ in range(4):
        v = rand_obj(r, 3)
        want.append((d.add(v).num, v))
    st = Style(r, r.choice((0.3, 1.0)))
    data = d.build(style=st, rng=r)
    obs.artifact('in.pdf', data)
    fp = ShortReader(data, r)
    doc = lib.open_doc(None, fp=fp)
    fp.on = True
    for num, v in want:
        check(doc, num, v, obs, 'short reads of mode %d' % fp.mode)
        obs.nontrivial(('short', fp.mode, lib.h8(v) if hasattr(lib, 'h8') else repr(v)))
    obs.count('short_reads', fp.n)


def stream_edges(r, tier, obs):
    """Stream dictionaries, keywords and payload ends around block boundaries."""
    d = Doc()
    d.page(b'')
    want = []
    for _ in range(6):
        n = r.choice((BLK - r.randrange(0, 40), BLK + r.randrange(0, 10), 2 * BLK - r.randrange(0, 40), r.randrange(0, 30)))
        pay = rand_bytes(r, n)
        lref = d.alloc() if r.random() < 0.4 else None
        if lref:
            d.objs[lref] = (0, len(pay))
        tail = r.choice((b'\n', b'\r\n', b'\r'))
        attrs = {'Pad': Raw(filler(r, BLK - r.randrange(0, 90)) + b'null')} if r.random() < 0.6 else {}
        s = Stream(attrs, pay, length_ref=lref, eol=r.choice((b'\n', b'\r\n')), tail=tail)
        want.append((d.add(s).num, pay))
    w = Writer(eol=r.choice((b'\n', b'\r\n')))
    w.out += filler(r, r.randrange(1, BLK))
    objs = d.objects()
    w.max_num = max(objs)
    w.revision(Revision(objs, trailer=d.trailer), r)
    data = w.bytes()
    obs.artifact('in.pdf', data)
    doc = lib.open_doc(data)
    for num, pay in want:
        got = doc.getobj(num).get_data()
        if got != pay:
            raise Violation('stream %d of %d bytes read as %d bytes' % (num, len(pay), len(got)))
        obs.count('boundaries')
        obs.nontrivial(('stream', len(pay), num))


def content(r, tier, obs):
    """Page content shifted across the block boundary."""
    prog = []
    imgs = []
    for _ in range(r.randrange(2, 5)):
        k = r.choice((0, 1, 2, 2, 3))
        if k == 0:
            prog.append(b'%d w %d %d m %d %d l S' % tuple(r.randrange(1, 400) for _ in range(5)))
        elif k == 1:
            prog.append(b'BT /F1 12 Tf %d %d Td (a\\(b\\051c\\101) Tj <4142> Tj [(x) -%d (y)] TJ ET' % tuple(
                r.randrange(1, 400) for _ in range(3)))
        elif k == 2:
            # the data is read in blocks that start at its first byte
            n = r.choice((9, 9, 9, BLK - r.randrange(12), BLK - r.randrange(12), BLK * 2 - r.randrange(12), 4090, 8200, 17000))
            obs.count('inline_blocks', int(BLK - 12 < n <= BLK))
            img = bytes(r.choice(b'EI \n\x00ab') for _ in range(n))
            img = img.replace(b'EI', b'Ex')
            img = img[:-1] + b'a'
            imgs.append(img)
            prog.append(b'q 10 0 0 10 %d 0 cm BI /W %d /H 1 /BPC 8 /CS /G ID ' % (r.randrange(300), n) + img + b'\nEI Q')
        else:
            prog.append(b'q 0.5 0 0 .5 %d 3.25 cm 1 0 .5 rg 0 0 10 20 re f* Q' % r.randrange(99))
    body = b'\n'.join(prog) + r.choice((b'', b'\n'))
    res = {'Font': {'F1': {'Type': Name('Font'), 'Subtype': Name('Type1'), 'BaseFont': Name('Helvetica')}}}

    def view(offs):
        d = Doc()
        for o in offs:
            d.page((filler(r, (BLK - o) % BLK) + b'\n' if o is not None else b'') + body, res)
        data = d.build()
        obs.artifact('in.pdf', data)
        return [p[3] for p in lib.page_view(data)]
    ref = view([None])[0]
    d = Doc()
    d.page(body, res)
    got = [x.stream.get_data() for x in next(iter(lib.interp(d.build()))) if hasattr(x, 'stream')]
    if got != imgs:
        raise Violation('data of the images %r, written %r' % ([lib.short(x) for x in got], [lib.short(x) for x in imgs]))
    offs = list(range(1, len(body)))
    lim = 10 if tier == 'quick' else 60
    if len(offs) > lim:
        offs = sorted(r.sample(offs, lim))
    # the inside of the operators that start and end inline data
    edges = [m.start() + k for m in re.finditer(rb'(?<=\s)(EI|ID)(?=\s)', body) for k in (0, 1, 2)]
    offs += r.sample(edges, min(len(edges), 4))
    obs.count('inline_boundaries', min(len(edges), 4))
    for o, v in zip(offs, view([o + 1 for o in offs])):
        dd = lib.diff(ref, v)
        if dd:
            raise Violation('content %r shifted so that byte %d meets a block boundary: %s' % (body, o, dd))
        note(obs, body, o, 'content')
        obs.count('content_boundaries')


def tables(r, tier, obs):
    """A table longer than a block, and the end of the file shifted."""
    d = Doc()
    d.page(b'')
    n = r.choice((230, 260, 430))
    want = []
    for _ in range(n):
        v = r.randrange(10**6)
        want.append((d.add(v).num, v))
    data = d.build(rng=r, eol=r.choice((b'\n', b'\r\n', b'\r')), split_table=r.random() < 0.5)
    for _ in range(3):
        tail = filler(r, r.choice((0, BLK - r.randrange(0, 60), BLK, 2 * BLK - r.randrange(0, 60), r.randrange(5000))))
        if r.random() < 0.5:
            tail = tail.replace(b'\x00', b' ')
        tail = b'\n'.join(b'%' + x if x.strip(b' \t\r\n\x0c\x00') and not x.startswith(b'%') else x for x in tail.split(b'\n'))
        obs.artifact('in.pdf', data + tail)
        doc = lib.open_doc(data + tail, fallback=False)
        for num, v in r.sample(want, 40):
            check(doc, num, v, obs, 'table of %d entries, %d bytes after the end' % (n, len(tail)))
        obs.count('table_boundaries')
        obs.count('tail_boundaries')
        obs.nontrivial(('tail', n, len(tail)))


KINDS = (shifted_objects, shifted_objects, short_reads, short_reads, stream_edges, long_tokens, content, tables)


def case(r, i, tier, obs):
    KINDS[(i // 8) % 8](r, tier, obs)
