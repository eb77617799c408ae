"""Stream payloads are delivered byte for byte."""
import os
import re
from vlib.harness import Violation, write_tmp
from vlib.pdfgen import Style, Stream, Name, Ref, Writer, Revision
from vlib.rand import rand_bytes, rand_atom
from vlib import lib

ID = 'C05'
LEVEL = 'exploration'
RULE = ('random and adversarial payloads (end markers, object headers, line ends at both ends, block-size lengths, empty) in files of every '
        'layout; raw payload and decoded data of each stream compared with the bytes written; a payload is non-trivial when it is binary, '
        'ends in a line end, or contains a keyword, counted by distinct payloads')
ASSUMPTIONS = ['Length is correct, or the payload holds no end marker', 'with a wrong Length the line end before the end marker may count as data', 'no filter, so raw and decoded data are the same bytes']
CASES = {'quick': 5000, 'thorough': 60000}
MIN = {'payloads': 30000, 'indirect_length': 10000, 'length_in_objstm': 3000, 'marker_inside': 10000, 'eol_end': 5000, 'empty': 1000, 'crlf': 12000, 'no_eol_tail': 5000, 'white_end': 1200, 'wrong_length': 1500, 'again': 20000}

WORDS = (b'endstream', b'\nendstream\n', b'\nendstream\nendobj\n', b'\r\nendstream\r\nendobj\r\n', b'endobj', b'\n7 0 obj\n', b'stream\n',
         b'stream\r\n', b'\nxref\n0 1\n', b'trailer', b'%%EOF', b'startxref\n0\n%%EOF\n', b'>>\nstream\nABC\nendstream', b'\rendstream\r', b' endstream ',
         b'endstrea', b'<<', b'(', b'<', b'%')


def payload(r):
    x = r.random()
    if x < 0.06:
        return b''
    if x < 0.12:
        return r.choice((b'\n', b'\r', b'\r\n', b'\n\n', b'\x00', b' ', b'e', b'\n\r', b'endstream', b'endstream\n', b'\nendstream'))
    if x < 0.17:
        n = r.choice((4096, 8192)) + r.randrange(-12, 12)
        b = rand_bytes(r, 64) * (n // 64 + 1)
        b = b[:n]
    elif x < 0.18:
        b = os.urandom(0) + r.randbytes(r.randrange(20000, 200000))
    else:
        b = rand_bytes(r, r.randrange(1, 300))
    for _ in range(r.choice((0, 0, 1, 1, 2, 4))):
        p = r.randrange(0, len(b) + 1)
        b = b[:p] + r.choice(WORDS) + b[p:]
    if r.random() < 0.3:
        b += r.choice((b'\n', b'\r', b'\r\n', b'\n\n', b'\r\r\n', b' ', b'\x00', b'\nendstream'))
    if r.random() < 0.06:
        b += r.choice((b'\n', b'\r', b'\r\n', b' ', b'\x00', b'\t', b'\n ', b' \x00\n')) * r.choice((8, 16, 17, 31, 33, 64, 300, 1025))
    if r.random() < 0.15:
        b = r.choice((b'\n', b'\r', b'\r\n', b' ', b'\x00', b'\nendstream\n', b'%')) + b
    return b


WHITE = (b'\0', b'\t', b'\n', b'\x0c', b'\r', b' ')


def case(r, i, tier, obs):
    style = Style(r, r.choice((0.0, 0.3, 0.7)))
    w = Writer(style=style, eol=r.choice((b'\n', b'\r\n', b'\r')))
    if r.random() < 0.3:
        w.header_ws = lambda: r.choice((b' ', b' ', b'  ', b'\t', b'\n', b'\r\n', b'\x0c', b' %x\n'))
    n = r.randrange(4, 22)
    objs = {1: {'Type': Name('Catalog')}}
    layout = r.choice(('table', 'stream', 'hybrid'))
    packed = set()
    spare = 100
    model = {}
    loose = {}
    wrong = {}
    for m in range(2, n):
        if r.random() < 0.2:
            objs[m] = rand_atom(r)
            continue
        b = payload(r)
        eol = r.choice((b'\n', b'\r\n'))
        tail = r.choice((b'\n', b'\n', b'\r\n', b'\r', b'')) if r.random() < 0.9 else r.choice((b'\n\n', b'\r\n\r\n', b' \n', b'\n\n\n', b' ', b'\n \n'))
        s = Stream({'K': m, 'T': Name('x')}, b, eol=eol, tail=tail)
        if eol == b'\r\n':
            obs.count('crlf')
        if tail == b'':
            obs.count('no_eol_tail')
        if r.random() < 0.4:
            spare += 1
            s.attrs['Length'] = Ref(spare)
            objs[spare] = len(b)
            obs.count('indirect_length')
            if layout != 'table' and r.random() < 0.5:
                packed.add(spare)
                obs.count('length_in_objstm')
        if tail in (b'\n', b'\r\n', b'\r', b'') and r.random() < 0.15:
            # the Length is wrong: the data goes up to the end marker
            if r.random() < 0.2:
                b = bytes(r.choice(b'abc()<>[] 12') for _ in range(64)) * r.randrange(60, 200)
            elif r.random() < 0.1:
                b = b'\n\n' + b + b'\n\n\n' + b
            b = b.replace(b'endstream', b'endStream')
            while b.endswith(WHITE):
                b = b[:-1] + b'x'
            x = r.choice((-1, 0, 1, len(b) - 1, len(b) // 2, len(b) + 3, len(b) + 12, 4096, 10 ** 6, 10 ** 12, r.randrange(len(b) + 100)))
            if x < 0 or (b + tail)[x:].strip(b'\0\t\n\x0c\r ') and x < len(b) or x > len(b) + len(tail):
                s = Stream({'K': m, 'T': Name('x'), 'Length': x}, b, eol=eol, tail=tail)
                loose[m] = b + tail
                wrong[m] = x
                obs.count('wrong_length')
        objs[m] = s
        model[m] = s.data
        b = s.data
        obs.count('payloads')
        if not b:
            obs.count('empty')
        if b'endstream' in b or b'obj' in b:
            obs.count('marker_inside')
        if b[-8:] and not b[-8:].strip(b' \0\r\n\t'):
            obs.count('white_end')
        if b[-1:] in (b'\r', b'\n'):
            obs.count('eol_end')
        if b[-1:] in (b'\r', b'\n') or b'endstream' in b or any(c > 126 for c in b):
            obs.nontrivial(b)
    w.max_num = max(objs)
    w.revision(Revision({a: (0, v) for a, v in objs.items()}, layout=layout, packed=packed, trailer={'Root': Ref(1)}), r)
    data = w.bytes()
    obs.artifact('in.pdf', data)
    fp = None
    if i % 4 == 0:
        fp = open(write_tmp(data), 'rb')
    try:
        doc = lib.open_doc(data, fp=fp, caching=r.random() < 0.7)
        order = list(model)
        r.shuffle(order)
        for m in order:
            if m in wrong and re.match(rb'[\0\t\n\x0c\r ]*endstream', data[max(0, w.stream_spans[m][0] + wrong[m]):][:99999]):
                # by accident right before another end marker
                continue
            s = doc.getobj(m)
            if not isinstance(s, lib.PDFStream):
                raise Violation('object %d is no stream: %r' % (m, s))
            raw = s.get_rawdata()
            if raw == loose.get(m):
                model[m] = raw
            if raw != model[m]:
                raise Violation('object %d: raw payload %s, written %s' % (m, lib.short(raw), lib.short(model[m])))
            for k in range(r.choice((1, 2, 3))):
                # as often as asked for
                b = s.get_data()
                obs.count('again', int(k > 0))
                if b != model[m]:
                    raise Violation('object %d: data %s, written %s' % (m, lib.short(b), lib.short(model[m])))
            if lib.canon(s.attrs.get('K')) != ('int', m):
                raise Violation('object %d: dictionary %r' % (m, s.attrs))
    finally:
        if fp:
            fp.close()
    if i < 2:
        obs.sample({'layout': layout, 'payloads': [lib.short(b) for b in list(model.values())[:4]]})
