"""Hostile structure cannot make reading run away."""
import io
import re
import struct
import zlib

from pdfmajor.parser.PDFDocument import PDFDocument
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.execptions import PDFMajorException
from vlib import faulty, harness, mutate
from vlib.harness import Violation, StepBudget
from vlib.pdfgen import Doc, Name, Raw, Ref, Stream
from vlib.use import Use

ID = 'C30'
LEVEL = 'exploration'
RULE = ('(a) a catalogue of %d structures that loop, share or grow (page trees, sections, object streams, lengths, outlines, name trees, forms, colour spaces, fonts, character maps, font '
        'files, boxes, contents, broken files), each read completely at two sizes with and without object caching: the count of executed branches, jumps and calls of the code under test '
        'stays in a fixed budget and grows at most with the square of the size; (b) self references, rings, shared and self-containing arrays and dictionaries, deep nesting, long chains and huge '
        'numbers put into every entry of complete documents, and (c) faulty files as in C31, each read completely within steps proportional to its bytes (decoded streams included); exceptions that leave '
        'the library must be documented ones, memory is limited; non-trivial cases counted by distinct structure and size or file')
ASSUMPTIONS = ['work is the deterministic number of executed branches, jumps, calls and resumptions in pdfmajor code, not time; loops inside built-in functions are only limited by memory and a watchdog',
               'forms are expanded as often as they are painted, ranges of codes and compressed data as far as they reach: such expansion counts as size']
MIN = {'catalogue': 500, 'planted': 700, 'faulty': 500, 'uncached': 100, '#pairs': 300, '#structures': 250, '#keys': 90, 'items': 1000}
MEM = 2 << 30
ALARM = 60


# ---------------------------------------------------------------- shapes put into any entry
def ring(doc, n):
    ns = [doc.alloc() for _ in range(n)]
    for a, b in zip(ns, ns[1:] + ns[:1]):
        doc.objs[a] = (0, Ref(b))
    return Ref(ns[0])


def selfarray(doc, n):
    a = doc.alloc()
    doc.objs[a] = (0, [Ref(a)] * n)
    return Ref(a)


def arrays(doc, n):
    ns = [doc.alloc() for _ in range(n)]
    for a, b in zip(ns, ns[1:] + ns[:1]):
        doc.objs[a] = (0, [Ref(b), Ref(b)])
    return Ref(ns[0])


def diamond(doc, n, leaf=0):
    ns = [doc.alloc() for _ in range(n)]
    for a, b in zip(ns, ns[1:]):
        doc.objs[a] = (0, [Ref(b)] * 4)
    doc.objs[ns[-1]] = (0, [leaf] * 4)
    return Ref(ns[0])


def selfdict(doc, n):
    a = doc.alloc()
    doc.objs[a] = (0, {Name(k): Ref(a) for k in mutate.KEYS})
    return Ref(a)


def dictdiamond(doc, n, ks=None):
    ns = [doc.alloc() for _ in range(n)]
    ks = ks or mutate.KEYS
    for a, b in zip(ns, ns[1:]):
        doc.objs[a] = (0, {Name(k): Ref(b) for k in ks})
    doc.objs[ns[-1]] = (0, {})
    return Ref(ns[0])


def streamloop(doc, n):
    a = doc.alloc()
    doc.objs[a] = (0, Stream({k: Ref(a) for k in ('Length', 'Filter', 'DecodeParms', 'Type', 'Subtype', 'Resources', 'BBox', 'Matrix', 'ColorSpace')}, b'x'))
    return Ref(a)


def chain(doc, n):
    ns = [doc.alloc() for _ in range(n)]
    for a, b in zip(ns, ns[1:]):
        doc.objs[a] = (0, Ref(b))
    doc.objs[ns[-1]] = (0, 1)
    return Ref(ns[0])


def deep(doc, n):
    return doc.add(Raw(b'[' * n + b'1' + b']' * n))


def deepdict(doc, n):
    return doc.add(Raw(b'<</A ' * n + b'1' + b'>>' * n))


SHAPES = [('self', lambda d, r: ring(d, 1)), ('ring', lambda d, r: ring(d, r.choice((2, 3, 50)))), ('selfarray', lambda d, r: selfarray(d, r.choice((1, 4, 6)))),
          ('arrays', lambda d, r: arrays(d, r.choice((2, 5)))), ('diamond', lambda d, r: diamond(d, 40)), ('selfdict', lambda d, r: selfdict(d, 1)),
          ('dictdiamond', lambda d, r: dictdiamond(d, 20)), ('streamloop', lambda d, r: streamloop(d, 1)), ('chain', lambda d, r: chain(d, 1500)),
          ('deep', lambda d, r: deep(d, 1500)), ('deepdict', lambda d, r: deepdict(d, 1500)),
          ('huge', lambda d, r: r.choice((10 ** 9, 2 ** 31 - 1, -10 ** 9, 2 ** 32, 2 ** 63, 10 ** 40))), ('huge', lambda d, r: [10 ** 9, 10 ** 9, 10 ** 9, 10 ** 9]),
          ('back', lambda d, r: Ref(d.pages_num)), ('back', lambda d, r: d.kids[0]), ('back', lambda d, r: Ref(d.catalog_num))]



# ---------------------------------------------------------------- structures that grow with n
def blank(content=b'0 0 5 5 re f BT /F1 9 Tf (hi) Tj ET', **res):
    doc = Doc()
    rs = {'Font': {'F1': {'Type': Name('Font'), 'Subtype': Name('Type1'), 'BaseFont': Name('Helvetica')}}}
    rs.update(res)
    doc.page(content, rs)
    return doc


def nums(doc, n):
    return [doc.alloc() for _ in range(n)]


def tree_chain(n):
    d = blank()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + [None]):
        d.objs[a] = (0, {'Type': Name('Pages'), 'Kids': [Ref(b) if b else d.kids[0]], 'Count': 1})
    d.pages_attrs['Kids'] = [Ref(ns[0])]
    return d.build()


def tree_ring(n):
    d = blank()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + ns[:1]):
        d.objs[a] = (0, {'Type': Name('Pages'), 'Kids': [Ref(b), d.kids[0], Ref(b)], 'Count': 1})
    d.pages_attrs['Kids'] = [Ref(ns[0]), Ref(ns[-1]), Ref(d.pages_num)]
    return d.build()


def tree_diamond(n):
    d = blank()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + [None]):
        d.objs[a] = (0, {'Type': Name('Pages'), 'Kids': [Ref(b)] * 2 if b else d.kids, 'Count': 2})
    d.pages_attrs['Kids'] = [Ref(ns[0])] * 2
    return d.build()


def tree_parents(n):
    d = blank()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + ns[:1]):
        d.objs[a] = (0, {'Type': Name('Pages'), 'Parent': Ref(b), 'Kids': [d.kids[0]]})
    d.objs[d.kids[0].num][1]['Parent'] = Ref(ns[0])
    d.objs[d.kids[0].num][1].pop('MediaBox')
    return d.build()


def tree_wide(n):
    d = blank()
    d.pages_attrs['Kids'] = d.kids * n
    return d.build()


def tree_nowhere(n):
    """no pages reachable: all objects are searched"""
    d = blank()
    for _ in range(n):
        d.add({'Type': Name('Pages'), 'Kids': []})
    d.pages_attrs['Kids'] = []
    return d.build()


def _sections(prevs, kind, extra=None):
    """File with sections whose Prev fields are the positions of sections prevs[i] (or a number)."""
    d = blank()
    body = d.build()
    body = body[:body.rindex(b'xref\n', 0, body.rindex(b'startxref'))]
    root = d.catalog_num
    pos = {int(m.group(1)): m.start(1) for m in re.finditer(rb'(?:^|\n)(\d+) 0 obj', body)}
    n = len(prevs)

    def section(i, at, where):
        p = prevs[i]
        pv = b''
        if p is not None:
            pv = b'/Prev %010d' % (where[p] if p < n else p)
        if extra:
            pv += b'/XRefStm %010d' % where[extra[i]]
        if kind[i] == 't':
            s = b'xref\n0 %d\n0000000000 65535 f \n' % (len(pos) + 1)
            for k in range(1, len(pos) + 1):
                s += b'%010d 00000 n \n' % pos[k]
            return s + b'trailer\n<</Size %d/Root %d 0 R%s>>\n' % (len(pos) + 1, root, pv)
        data = b'\0\0\0\0' + b''.join(b'\1' + pos[k].to_bytes(3, 'big') for k in range(1, len(pos) + 1))
        return b'%d 0 obj\n<</Type/XRef/W[1 3 0]/Size %d/Root %d 0 R%s/Length %d>>stream\n%s\nendstream endobj\n' % (900000 + i, len(pos) + 1, root, pv, len(data), data)
    where = [0] * n
    at = len(body)
    for i in range(n):
        where[i] = at
        at += len(section(i, at, where))
    out = body
    for i in range(n):
        out += section(i, 0, where)
    return out + b'startxref\n%d\n%%%%EOF\n' % where[0]


def prev_chain(n):
    return _sections([i + 1 for i in range(n - 1)] + [None], 't' * n)


def prev_ring(n):
    return _sections([(i + 1) % n for i in range(n)], 't' * n)


def prev_ring_stream(n):
    return _sections([(i + 1) % n for i in range(n)], 's' * n)


def prev_self(n):
    return _sections([i for i in range(n)], 't' * n)


def prev_mixed(n):
    n += n % 2
    return _sections([(i + 1) % n for i in range(n)], 'ts' * (n // 2))


def xrefstm_loop(n):
    return _sections([(i + 1) % n for i in range(n)], 't' * n, [(i + 2) % n for i in range(n)])


def xrefstm_stream_loop(n):
    n += n % 2
    return _sections([(i + 2) % n for i in range(n)], 'ts' * (n // 2), [(i + 1) % n for i in range(n)])


def _objstms(stms, plain, root, trailer=b'', entries=None):
    """Cross-reference stream file: stms {number: (attrs bytes, members {num: bytes})}, plain {num: bytes}; entries override {num: (stm, index)}"""
    out = bytearray(b'%PDF-1.7\n')
    where = {}
    for k, b in plain.items():
        where[k] = (1, len(out), 0)
        out += b'%d 0 obj\n%s\nendobj\n' % (k, b)
    for k, (attrs, mem) in stms.items():
        where[k] = (1, len(out), 0)
        head, bod = b'', b''
        for j, (m, b) in enumerate(mem.items()):
            head += b'%d %d ' % (m, len(bod))
            bod += b + b' '
            where.setdefault(m, (2, k, j))
        data = head + bod
        a = attrs if b'/N ' in attrs else attrs + b'/N %d' % len(mem)
        a = a if b'/Length ' in a else a + b'/Length %d' % len(data)
        a = a if b'/First ' in a else a + b'/First %d' % len(head)
        out += b'%d 0 obj\n<</Type/ObjStm%s>>stream\n%s\nendstream\nendobj\n' % (k, a, data)
    where.update(entries or {})
    x = len(out)
    top = max(where) + 1
    where[top] = (1, x, 0)
    data = b''.join(bytes([where[k][0]]) + where[k][1].to_bytes(4, 'big') + where[k][2].to_bytes(3, 'big') if k in where else bytes(8) for k in range(top + 1))
    out += b'%d 0 obj\n<</Type/XRef/W[1 4 3]/Size %d/Root %d 0 R%s/Length %d>>stream\n%s\nendstream\nendobj\nstartxref\n%d\n%%%%EOF\n' % (top, top + 1, root, trailer, len(data), data, x)
    return bytes(out)


PAGE = {1: b'<</Type/Catalog/Pages 2 0 R>>', 2: b'<</Type/Pages/Kids[3 0 R]/Count 1>>', 3: b'<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]/Resources<<>>/Contents 4 0 R>>',
        4: b'<</Length 15>>stream\n0 0 5 5 re f   \nendstream'}


def objstm_self(n):
    ks = range(10, 10 + n)
    return _objstms({k: (b'', {k: b'7', k + 10 ** 5: b'8'}) for k in ks}, PAGE, 1, entries={k: (2, k, 0) for k in ks})


def objstm_ring(n):
    ks = list(range(10, 10 + n))
    return _objstms({k: (b'', {k + 10 ** 5: b'8'}) for k in ks}, PAGE, 1, entries={a: (2, b, 0) for a, b in zip(ks, ks[1:] + ks[:1])})


def objstm_chain(n):
    """the length of each stream of objects is kept in the next one"""
    ks = list(range(10, 10 + n))
    return _objstms({k: (b'/Length %d 0 R' % (k + 5001), {k + 5000: b'%d' % 12}) for k in ks}, PAGE, 1, entries={})


def objstm_attr_ring(n):
    ks = list(range(10, 10 + n))
    return _objstms({a: (b'/N %d 0 R/First %d 0 R/Length %d 0 R/Extends %d 0 R/Filter %d 0 R' % (a + 5000, b + 5000, b + 5000, b, b + 5000), {a + 5000: b'%d 0 R' % (b + 5000)})
                     for a, b in zip(ks, ks[1:] + ks[:1])}, PAGE, 1)


def objstm_lost(n):
    """streams of objects whose entries are kept in the next one, the last is missing"""
    ks = list(range(10, 10 + n))
    return _objstms({a: (b'/N %d 0 R/Filter/AHx/DecodeParms<</Predictor %d 0 R>>' % (b + 5000, b + 5000), {a + 5000: b'12'}) for a, b in zip(ks, ks[1:] + [99])}, PAGE, 1)


def objstm_lost_all(n):
    ks = list(range(10, 10 + n))
    return _objstms({a: (b'/N %d 0 R/Filter %d 0 R/DecodeParms %d 0 R/First %d 0 R' % ((b + 5000,) * 4), {a + 5000: b'%d 0 R' % (b + 5000)}) for a, b in zip(ks, ks[1:] + [99])}, PAGE, 1)


def objstm_broken(n):
    """a stream of objects that cannot be read to its end"""
    m = {k: b'[%d 0 R]' % (k + 1) for k in range(20, 20 + n)}
    m[15] = b'<</A>>'
    return _objstms({10: (b'', m)}, PAGE, 1)


HUGE = 4000000000


def claim_table(n):
    """a section that claims more entries than there are, and is the end of the file"""
    d = blank().build()
    x = d.rindex(b'xref\n', 0, d.rindex(b'startxref'))
    section = re.sub(rb'^xref\n0 \d+', b'xref\n%d %d' % (0 if n % 2 else 10 ** 6, HUGE + n), d[x:d.rindex(b'trailer')])
    end = b'%s\nstartxref\n%%010d\n%%%%%%%%EOF\n' % d[d.rindex(b'trailer'):d.rindex(b'startxref')].strip().replace(b'%', b'%%')
    return d[:x] + end % (x + len(end % 0)) + section


def claim_tables(n):
    """sections of no entries and far numbers"""
    d = blank().build()
    x = d.rindex(b'xref\n', 0, d.rindex(b'startxref'))
    return d[:x] + b'xref\n' + b''.join(b'%d 0\n' % (HUGE * k) for k in range(n)) + d[x + 5:]


def claim_index(n):
    """a stream of sections that claims more entries than it holds"""
    return _objstms({10: (b'', {k: b'[%d 0 R]' % (k + 1) for k in range(20, 20 + n)})}, PAGE, 1, b'/Index[0 %d %d %d]' % (30 + n, HUGE, HUGE))


def claim_size(n):
    return _objstms({10: (b'', {k: b'[%d 0 R]' % (k + 1) for k in range(20, 20 + n)})}, PAGE, 1).replace(b'/Size %d' % (21 + n), b'/Size %d' % (HUGE + n))


def claim_members(n):
    return _objstms({10: (b'/N %d' % (HUGE + n), {k: b'[%d 0 R]' % (k + 1) for k in range(20, 20 + n)})}, PAGE, 1)


def claim_first(n):
    return _objstms({10: (b'/First %d' % (HUGE + n), {k: b'[%d 0 R]' % (k + 1) for k in range(20, 20 + n)})}, PAGE, 1)


def claim_predictor(n):
    d = blank()
    for k in ('Columns', 'Colors', 'BitsPerComponent', 'Predictor'):
        d.add(Stream({'Filter': Name('FlateDecode'), 'DecodeParms': {'Predictor': 12, 'Columns': 3, k: HUGE}}, zlib.compress(bytes(4 * n))))
    d.add(Stream({'Filter': Name('CCITTFaxDecode'), 'DecodeParms': {'K': -1, 'Columns': 8, 'Rows': HUGE}}, bytes(n)))
    return d.build()


def claim_image(n):
    return blank(b'BI /W %d /H %d /BPC 8 /CS /G ID ' % (HUGE, HUGE) + b'x' * n + b' EI 0 0 1 1 re f').build()


def claim_widths(n):
    d = blank()
    d.objs[d.kids[0].num][1]['Resources'] = {'Font': {'F1': {'Type': Name('Font'), 'Subtype': Name('TrueType'), 'BaseFont': Name('X'), 'FirstChar': -HUGE, 'LastChar': HUGE, 'Widths': [5] * n,
                                                             'Encoding': {'Differences': [HUGE, Name('a'), -HUGE, Name('b')] * n}}}}
    return d.build()


def claim_count(n):
    d = blank()
    d.pages_attrs['Count'] = HUGE
    d.catalog['PageLabels'] = {'Nums': [HUGE, {}] * n}
    return d.build()


def objstm_extends(n):
    ks = list(range(10, 10 + n))
    return _objstms({a: (b'/Extends %d 0 R' % b, {a + 5000: b'%d 0 R' % (b + 5000)}) for a, b in zip(ks, ks[1:] + ks[:1])}, PAGE, 1)


def objstm_wide(n):
    return _objstms({10: (b'', {k: b'[%d 0 R]' % (k + 1) for k in range(20, 20 + n)})}, PAGE, 1)


def objstm_catalog(n):
    """catalogue and tree inside streams that are defined by them"""
    ks = list(range(10, 10 + n))
    st = {a: (b'/Length %d 0 R' % (b + 5000), {a + 5000: b'%d 0 R' % (b + 5000)}) for a, b in zip(ks, ks[1:] + ks[:1])}
    p = dict(PAGE)
    st[10][1][1] = p.pop(1)
    return _objstms(st, p, 1)


def length_ring(n):
    p = dict(PAGE)
    ks = list(range(10, 10 + n))
    for a, b in zip(ks, ks[1:] + ks[:1]):
        p[a] = b'<</Length %d 0 R/Filter %d 0 R/DecodeParms %d 0 R>>stream\nabc\nendstream' % (b, b, b)
    p[4] = p[4].replace(b'/Length 15', b'/Length 10 0 R')
    return _objstms({}, p, 1)


def length_chain(n):
    p = dict(PAGE)
    ks = list(range(10, 10 + n))
    for a, b in zip(ks, ks[1:]):
        p[a] = b'%d 0 R' % b
    p[ks[-1]] = b'15'
    p[4] = p[4].replace(b'/Length 15', b'/Length 10 0 R')
    return _objstms({}, p, 1)


def trailer_loops(n):
    p = dict(PAGE)
    ks = list(range(10, 10 + n))
    for a, b in zip(ks, ks[1:] + ks[:1]):
        p[a] = b'%d 0 R' % b
    return _objstms({}, p, 1, b'/Info 10 0 R/ID 10 0 R')


def encrypt_loops(n):
    p = dict(PAGE)
    p[10] = b'<</Filter/Standard/V 10 0 R/R 10 0 R/O 10 0 R/U 10 0 R/P 10 0 R/CF 10 0 R/StmF 10 0 R/Length 10 0 R>>'
    p.update({k: b'(x)' for k in range(11, 11 + n)})
    return _objstms({}, p, 1, b'/Encrypt 10 0 R/ID[10 0 R 10 0 R]')


def outline_chain(n):
    d = blank()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + [None]):
        d.objs[a] = (0, dict({'Title': b't', 'Dest': b'x'}, **({'Next': Ref(b)} if b else {})))
    d.catalog['Outlines'] = d.add({'First': Ref(ns[0]), 'Last': Ref(ns[-1])})
    return d.build()


def outline_deep(n):
    d = blank()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + [None]):
        d.objs[a] = (0, dict({'Title': b't', 'Dest': b'x'}, **({'First': Ref(b), 'Last': Ref(b)} if b else {})))
    d.catalog['Outlines'] = d.add({'First': Ref(ns[0]), 'Last': Ref(ns[-1])})
    return d.build()


def outline_diamond(n):
    d = blank()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + [None]):
        d.objs[a] = (0, dict({'Title': b't', 'Dest': b'x'}, **({'First': Ref(b), 'Last': Ref(b), 'Next': Ref(b)} if b else {})))
    d.catalog['Outlines'] = d.add({'First': Ref(ns[0]), 'Last': Ref(ns[-1])})
    return d.build()


def outline_ring(n):
    d = blank()
    ns = nums(d, n)
    top = d.alloc()
    for a, b in zip(ns, ns[1:] + ns[:1]):
        d.objs[a] = (0, {'Title': b't', 'Dest': b'x', 'Next': Ref(b), 'First': Ref(b), 'Last': Ref(a), 'Parent': Ref(top)})
    d.objs[top] = (0, {'First': Ref(ns[0]), 'Last': Ref(top), 'Next': Ref(top)})
    d.catalog['Outlines'] = Ref(top)
    return d.build()


def names_ring(n):
    d = blank()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + ns[:1]):
        d.objs[a] = (0, {'Kids': [Ref(b), Ref(a), Ref(ns[0])], 'Limits': [b'a', b'z']})
    d.catalog['Names'] = {'Dests': Ref(ns[0])}
    return d.build()


def names_diamond(n):
    d = blank()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + [None]):
        d.objs[a] = (0, {'Kids': [Ref(b), Ref(b)]} if b else {'Names': [b'q', 1]})
    d.catalog['Names'] = {'Dests': Ref(ns[0])}
    d.catalog['Dests'] = Ref(ns[0])
    return d.build()


def names_chain(n):
    d = blank()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + [None]):
        d.objs[a] = (0, {'Kids': [Ref(b)]} if b else {'Names': [b'name', 1]})
    d.catalog['Names'] = {'Dests': Ref(ns[0])}
    return d.build()


def _forms(n, paint, res, content=b'/X0 Do'):
    d = Doc()
    ns = nums(d, n)
    for i, a in enumerate(ns):
        d.objs[a] = (0, Stream({'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, 9, 9], 'Resources': res(d, ns, i)}, paint(i)))
    d.page(content, {'XObject': {'X0': Ref(ns[0])}})
    return d.build()


def form_self(n):
    return _forms(n, lambda i: b'/X Do 0 0 1 1 re f', lambda d, ns, i: {'XObject': {'X': Ref(ns[i])}})


def form_ring(n):
    return _forms(n, lambda i: b'/X Do 0 0 1 1 re f', lambda d, ns, i: {'XObject': {'X': Ref(ns[(i + 1) % n])}})


def form_chain(n):
    return _forms(n, lambda i: b'0 0 1 1 re f' + (b' /X Do' if i < n - 1 else b''), lambda d, ns, i: {'XObject': {'X': Ref(ns[(i + 1) % n])}})


def form_inherit(n):
    """forms without resources of their own, invoking themselves through those of the page"""
    d = Doc()
    f = d.add(Stream({'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, 9, 9]}, b'/X Do 0 0 1 1 re f'))
    d.page(b'/X Do ' * n, {'XObject': {'X': f}})
    return d.build()


def form_wide(n):
    return _forms(n, lambda i: b'0 0 1 1 re f', lambda d, ns, i: {'XObject': {'X': Ref(ns[i])}}, b'/X0 Do ' * n)


def form_resloop(n):
    d = Doc()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + ns[:1]):
        d.objs[a] = (0, {'XObject': {'X': Ref(b)}, 'Font': Ref(b), 'ColorSpace': Ref(b), 'Resources': Ref(b), 'Pattern': Ref(a), 'ExtGState': Ref(a)})
    d.page(b'/X Do /X gs /X cs 1 scn BT /X 9 Tf (a) Tj ET', Ref(ns[0]))
    return d.build()


def cs_ring(n):
    d = Doc()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + ns[:1]):
        d.objs[a] = (0, [Name('Indexed'), Ref(b), 1, b'ab'])
    st = d.add(Stream({'N': 3, 'Alternate': Ref(ns[0])}, b'icc'))
    d.page(b'/A cs 1 sc 0 0 1 1 re f /B cs 1 1 1 sc 0 0 1 1 re f /C cs 1 scn 0 0 1 1 re f', {'ColorSpace': {'A': Ref(ns[0]), 'B': [Name('ICCBased'), st], 'C': [Name('Pattern'), Ref(ns[0])]}})
    return d.build()


def cs_chain(n):
    d = Doc()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + [None]):
        d.objs[a] = (0, [Name('Indexed'), Ref(b) if b else Name('DeviceRGB'), 1, b'ab'])
    d.page(b'/A cs 1 sc 0 0 1 1 re f', {'ColorSpace': {'A': Ref(ns[0])}})
    return d.build()


def _font(d, f):
    d.page(b'BT /F1 9 Tf (hello world) Tj ET', {'Font': {'F1': f}})
    return d.build()


def font_ring(n):
    d = Doc()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + ns[:1]):
        d.objs[a] = (0, {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name('X'), 'Encoding': Name('Identity-H'), 'DescendantFonts': [Ref(b)]})
    return _font(d, Ref(ns[0]))


def font_chain(n):
    d = Doc()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + [None]):
        d.objs[a] = (0, {'Type': Name('Font'), 'Subtype': Name('Type0' if b else 'Type1'), 'BaseFont': Name('X'), 'Encoding': Name('Identity-H'), 'DescendantFonts': [Ref(b)] if b else None})
    return _font(d, Ref(ns[0]))


def cmap_stream(n, text, tounicode=True):
    d = Doc()
    c = d.add(Stream({'Type': Name('CMap'), 'CMapName': Name('M')}, text))
    c2 = {'Type': Name('Font'), 'Subtype': Name('CIDFontType2'), 'BaseFont': Name('X'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0}, 'FontDescriptor': {'FontName': Name('X'), 'FontBBox': [0, 0, 1, 1]}}
    f = {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name('X'), 'Encoding': Name('Identity-H') if tounicode else c, 'DescendantFonts': [c2]}
    if tounicode:
        f['ToUnicode'] = c
    return _font(d, f)


def cmap_self(n):
    d = Doc()
    ns = nums(d, n)
    for a, b in zip(ns, ns[1:] + ns[:1]):
        d.objs[a] = (0, Stream({'Type': Name('CMap'), 'CMapName': Name('M'), 'UseCMap': Ref(b)}, b'/M usecmap 1 beginbfchar <41> <0041> endbfchar'))
    return _font(d, {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name('X'), 'Encoding': Ref(ns[0]), 'ToUnicode': Ref(ns[0]),
                     'DescendantFonts': [{'Type': Name('Font'), 'Subtype': Name('CIDFontType2'), 'BaseFont': Name('X')}]})


def cmap_huge(n):
    return cmap_stream(n, b'begincmap ' + b'1 beginbfrange <00000000> <ffffffff> <0041> endbfrange 1 begincidrange <00000000> <ffffffff> 0 endcidrange ' * n + b'endcmap')


def cmap_huge_enc(n):
    return cmap_stream(n, b'begincmap ' + b'1 begincidrange <00000000> <ffffffff> 0 endcidrange 1 beginbfrange <00000000> <ffffffff> <0041> endbfrange ' * n + b'endcmap', False)


def cmap_long_code(n):
    return cmap_stream(n, b'begincmap 1 begincidrange <' + b'41' * n + b'00000000> <' + b'41' * n + b'ffffffff> 0 endcidrange 1 begincidchar <' + b'42' * n + b'> 5 endcidchar endcmap', False)


def cmap_long_text(n):
    return cmap_stream(n, b'begincmap 1 beginbfrange <0000> <1fff> <' + b'0041' * n + b'> endbfrange endcmap')


def cmap_use(n):
    return cmap_stream(n, b'begincmap /M usecmap /Identity-H usecmap ' * n + b'endcmap', False)


def cmap_ranges(n):
    return cmap_stream(n, b'begincmap %d beginbfrange ' % n + b''.join(b'<%04x> <%04x> <0041> ' % (k * 8, k * 8 + 7) for k in range(n)) + b'endbfrange endcmap')


def cmap_chars(n):
    return cmap_stream(n, b'begincmap %d beginbfchar ' % n + b''.join(b'<%04x> <0041> ' % (k & 65535) for k in range(n)) + b'endbfchar endcmap')


def cmap_long(n):
    return cmap_stream(n, b'begincmap 1 beginbfchar <' + b'41' * n + b'> <' + b'0041' * n + b'> endbfchar 1 beginbfrange <' + b'41' * n + b'> <' + b'41' * n + b'> <' + b'0041' * n + b'> endbfrange endcmap')


def widths_huge(n):
    d = Doc()
    c2 = {'Type': Name('Font'), 'Subtype': Name('CIDFontType2'), 'BaseFont': Name('X'), 'W': [0, 10 ** 9, 500] * n, 'W2': [0, 10 ** 9, 1, 2, 3] * n}
    return _font(d, {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name('X'), 'Encoding': Name('Identity-H'), 'DescendantFonts': [c2]})


def widths_long(n):
    d = Doc()
    return _font(d, {'Type': Name('Font'), 'Subtype': Name('TrueType'), 'BaseFont': Name('X'), 'FirstChar': -10 ** 9, 'LastChar': 10 ** 9, 'Widths': [500] * n})


def differences(n):
    d = Doc()
    return _font(d, {'Type': Name('Font'), 'Subtype': Name('TrueType'), 'BaseFont': Name('X'), 'Encoding': {'Differences': [10 ** 9] + [Name('A'), Name('g%d' % 5), Name('uni' + '0041' * n), 7] * n}})


def type1_file(n):
    d = Doc()
    f = d.add(Stream({'Length1': 10 ** 9}, b'%!PS /Encoding 256 array ' + b'dup 65 /A put ' * n + b'[[' * n + b'/FontMatrix [0.001 0 0 0.001 0 0] readonly def'))
    return _font(d, {'Type': Name('Font'), 'Subtype': Name('Type1'), 'BaseFont': Name('X'), 'FontDescriptor': {'FontName': Name('X'), 'FontBBox': [0, 0, 1, 1], 'FontFile': f}})


def _tt(n, cmap):
    d = Doc()
    body = struct.pack('>LHHHH', 0x10000, 1, 16, 0, 0) + struct.pack('>4sLLL', b'cmap', 0, 28, len(cmap)) + cmap
    f = d.add(Stream({'Length1': len(body)}, body))
    c2 = {'Type': Name('Font'), 'Subtype': Name('CIDFontType2'), 'BaseFont': Name('X'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'UCS', 'Supplement': 0},
          'FontDescriptor': {'FontName': Name('X'), 'FontBBox': [0, 0, 1, 1], 'FontFile2': f}}
    return _font(d, {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name('X'), 'Encoding': Name('Identity-H'), 'DescendantFonts': [c2]})


def tt_subtables(n):
    """many entries that share one large subtable"""
    sub = struct.pack('>HHHHHHH', 4, 10 ** 4, 0, 2 * n, 0, 0, 0)
    sub += b''.join(struct.pack('>H', min(65535, 100 * k + 90)) for k in range(n)) + b'\0\0' + b''.join(struct.pack('>H', 100 * k % 65536) for k in range(n)) + bytes(2 * n) + bytes(2 * n)
    return _tt(n, struct.pack('>HH', 0, n) + struct.pack('>HHL', 3, 1, 4 + 8 * n) * n + sub)


def tt_overlap(n):
    sub = struct.pack('>HHHHHHH', 4, 10 ** 4, 0, 2 * n, 0, 0, 0) + b'\xff\xff' * n + b'\0\0' + b'\0\0' * n + bytes(2 * n) + bytes(2 * n)
    return _tt(n, struct.pack('>HH', 0, 1) + struct.pack('>HHL', 3, 1, 12) + sub)


def tt_backwards(n):
    segs = [(1, 60000), (60001, 0)] * n
    sub = struct.pack('>HHHHHHH', 4, 10 ** 4, 0, 4 * n, 0, 0, 0) + b''.join(struct.pack('>H', e) for s, e in segs) + b'\0\0' + b''.join(struct.pack('>H', s) for s, e in segs) + bytes(8 * n)
    return _tt(n, struct.pack('>HH', 0, 1) + struct.pack('>HHL', 3, 1, 12) + sub)


def tt_format2(n):
    sub = struct.pack('>HHH', 2, 60000, 0) + struct.pack('>256H', *[8 * min(k, n) for k in range(256)])
    sub += b''.join(struct.pack('>HHhH', 0, 65535, 0, 8 * (n - k) + 2) for k in range(n + 1)) + b'\1\1' * 65535
    return _tt(n, struct.pack('>HH', 0, 1) + struct.pack('>HHL', 3, 1, 12) + sub)


def tt_tables(n):
    """the same table listed again and again"""
    d = Doc()
    body = struct.pack('>LHHHH', 0x10000, n, 16, 0, 0) + struct.pack('>4sLLL', b'cmap', 0, 0, 2 ** 32 - 1) * n
    f = d.add(Stream({}, body))
    c2 = {'Type': Name('Font'), 'Subtype': Name('CIDFontType2'), 'BaseFont': Name('X'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'UCS', 'Supplement': 0}, 'FontDescriptor': {'FontName': Name('X'), 'FontBBox': [0, 0, 1, 1], 'FontFile2': f}}
    return _font(d, {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name('X'), 'Encoding': Name('Identity-H'), 'DescendantFonts': [c2]})


def cff_file(n):
    d = Doc()
    body = b'\1\0\4\1' + b'\xff\xff\1' + b'\1' * n
    f = d.add(Stream({'Subtype': Name('Type1C')}, body))
    return _font(d, {'Type': Name('Font'), 'Subtype': Name('Type1'), 'BaseFont': Name('X'), 'FontDescriptor': {'FontName': Name('X'), 'FontBBox': [0, 0, 1, 1], 'FontFile3': f}})


def box_diamond(n):
    d = blank()
    d.objs[d.kids[0].num][1]['MediaBox'] = diamond(d, n)
    return d.build()


def box_loop(n):
    d = blank()
    d.objs[d.kids[0].num][1]['CropBox'] = arrays(d, n)
    return d.build()


def box_elements(n):
    d = blank()
    x = diamond(d, n)
    d.objs[d.kids[0].num][1]['MediaBox'] = [0, 0, 9, x]
    return d.build()


def content_loop(n):
    d = blank()
    a = d.alloc()
    d.objs[a] = (0, [Ref(a)] * n + [Ref(d.kids[0].num)])
    d.objs[d.kids[0].num][1]['Contents'] = Ref(a)
    return d.build()


def content_parts(n):
    d = blank()
    c = d.objs[d.kids[0].num][1]['Contents']
    d.objs[d.kids[0].num][1]['Contents'] = [c] * n
    return d.build()


def filters(n):
    d = blank()
    data = b'0 0 5 5 re f'
    for _ in range(n):
        data = data.hex().encode() + b'>' if n < 8 else data
    c = d.add(Stream({'Filter': [Name('RunLengthDecode')] * n, 'DecodeParms': [None] * n}, b'\x80'))
    d.objs[d.kids[0].num][1]['Contents'] = c
    return d.build()


def flood(piece):
    def f(n):
        d = blank(piece * n)
        return d.build()
    return f


TOKENS = [b'/A#zz', b'/#', b'/A#', b'/A#4', b'/A#4z', b'/', b'/#4/#', b'(\\', b'(\\9)', b'(\\400)', b'(\\\r)', b'(\\0000)', b'(\\7', b'<4', b'<zz>', b'<4z>', b'<>', b'<4 >', b'>', b')', b'<<>', b'<<</A', b'1.2.3', b'--1', b'+-', b'.', b'-', b'+.',
          b'1e5', b'1-2', b'#', b'\x00', b'\x80', b'\xff', b"'", b'"', b'*', b'a%', b'truefalse', b'nul', b'R', b'1 R', b'1 0 R', b'obj', b'stream', b'endstream', b'endobj', b'xref', b'<!', b'>!', b'~>', b'<~', b'[<', b'{}', b'{/A}', b'(]', b'\t\f',
          b'1' * 30, b'.' * 30, b'/' * 30, b'd' * 30]


def tokens(piece, where):
    """odd tokens, apart and together"""
    def f(n):
        b = (piece + b' ') * n + piece * n + (piece + b'\n') * n
        if where == 'content':
            return blank(b).build()
        if where == 'cmap':
            return cmap_stream(n, b'begincmap ' + b + b' 1 beginbfchar <41> <0041> endbfchar ' + b + b' endcmap')
        if where == 'type1':
            d = Doc()
            t = d.add(Stream({'Length1': 10 ** 9}, b'%!PS /Encoding 256 array ' + b + b' dup 65 /A put ' + b))
            return _font(d, {'Type': Name('Font'), 'Subtype': Name('Type1'), 'BaseFont': Name('X'), 'FontDescriptor': {'FontName': Name('X'), 'FontBBox': [0, 0, 1, 1], 'FontFile': t}})
        if where == 'member':
            d = blank()
            d.catalog['Names'] = {'Dests': d.add(Raw(b))}
            return d.build(layout='stream', packed='all')
        d = blank()
        d.catalog['Names'] = {'Dests': d.add(Raw(b'[' + b + b']')), 'Odd': Raw(b)}
        return d.build()
    return f


def junk(piece, tail=b''):
    """a file without cross-reference, made of pieces"""
    def f(n):
        return b'%PDF-1.4\n' + b'\n'.join(piece.replace(b'@', b'%d' % (k + 10)) for k in range(n)) + b'\n' + tail
    return f


ROOT = b'1 0 obj\n<</Type/Catalog/Pages 2 0 R>>endobj\n2 0 obj\n<</Type/Pages/Kids[]>>endobj\ntrailer <</Root 1 0 R>>'
CATALOG = [(f, n) for f, n in [
    (claim_table, 40), (claim_tables, 60), (claim_index, 60), (claim_size, 60), (claim_members, 60), (claim_first, 60), (claim_predictor, 60), (claim_image, 300), (claim_widths, 60), (claim_count, 60), (tree_chain, 100), (tree_ring, 100), (tree_diamond, 24), (tree_parents, 100), (tree_wide, 20), (tree_nowhere, 200), (prev_chain, 60), (prev_ring, 60), (prev_ring_stream, 60), (prev_self, 60),
    (prev_mixed, 60), (xrefstm_loop, 60), (xrefstm_stream_loop, 60), (objstm_self, 60), (objstm_ring, 60), (objstm_chain, 60), (objstm_chain, 700), (objstm_attr_ring, 60), (objstm_extends, 60), (objstm_wide, 200), (objstm_lost, 24), (objstm_lost_all, 24), (objstm_broken, 150),
    (objstm_catalog, 30), (length_ring, 60), (length_chain, 100), (length_chain, 700), (trailer_loops, 100), (encrypt_loops, 20), (outline_chain, 200), (outline_deep, 200), (outline_diamond, 24), (outline_ring, 100),
    (names_ring, 100), (names_diamond, 24), (names_chain, 200), (form_self, 20), (form_ring, 30), (form_chain, 30), (form_inherit, 20), (form_wide, 40), (form_resloop, 60), (cs_ring, 60), (cs_chain, 60), (cs_chain, 800),
    (font_ring, 60), (font_chain, 60), (font_chain, 800), (cmap_self, 20), (cmap_huge, 2), (cmap_huge_enc, 1), (cmap_chars, 500), (cmap_long, 200), (cmap_long_code, 100), (cmap_long_text, 100), (cmap_use, 100), (cmap_ranges, 200), (widths_huge, 2), (widths_long, 300), (differences, 60), (type1_file, 100), (tt_subtables, 100), (tt_overlap, 300), (tt_backwards, 4), (tt_format2, 100), (tt_tables, 200),
    (cff_file, 300), (box_diamond, 16), (box_loop, 20), (box_elements, 16), (content_loop, 20), (content_parts, 40), (filters, 40)]] + [
    (flood(p), k) for p, k in [(b'q ', 500), (b'Q ', 500), (b'[', 800), (b'<<', 500), (b'(', 500), (b'1 ', 800), (b'BT ', 300), (b'ET ', 300), (b'BI ', 300), (b'BI /W 1 ID ', 100), (b'BI /W 8 /H 1 /BPC 8 ID abcdefgh EI ', 60),
                               (b'ID ', 300), (b'EI ', 300), (b'0 0 m ', 200), (b'0 0 1 1 re ', 150), (b'<41>', 200), (b'%', 500), (b'/F1 1 Tf ', 100), (b'BT /F1 9 Tf (a) Tj ET ', 40), (b'\x00\n', 500), (b'>>', 400), (b'{', 400), (b']', 400),
                               (b'W n ', 200), (b'BMC /A BDC ', 200), (b'5 5 l ', 200), (b'1 0 0 1 5 5 cm ', 200), (b'/P gs ', 200), (b'/DeviceRGB cs ', 200)]] + [
    (junk(p, t), k) for p, k, t in [(b'@ 0 obj', 200, ROOT), (b'@ 0 obj <<', 200, ROOT), (b'@ 0 obj [', 150, ROOT), (b'@ 0 obj <</Length 10 0 R>> stream', 60, ROOT), (b'@ 0 obj <</Length 99999>> stream', 60, ROOT), (b'@ 0 obj (', 150, ROOT),
                                    (b'trailer <<', 150, ROOT), (b'trailer', 150, ROOT), (b'trailer <</Root @ 0 R/Prev 9>>', 100, ROOT), (b'startxref\n@\n', 200, ROOT), (b'xref\n0 1\n', 150, ROOT), (b'startxref', 200, b''), (b'x', 500, b''), (b'endobj endstream', 200, ROOT),
                                    (b'@ 0 obj <</Type/ObjStm/N 9/First 2/Length 20>> stream\n1 0 2 0 3 0 (a)(b)(c\nendstream endobj', 60, ROOT), (b'5 0 obj 5 0 R endobj', 150, ROOT), (b'@ 0 obj %', 200, ROOT), (b'@ 0 obj <', 150, ROOT)]] + [
    (tokens(t, ('content', 'object', 'cmap', 'type1', 'member')[(k + j) % 5]), 24) for k, t in enumerate(TOKENS) for j in (0, 1, 3)]

def label(f):
    if f.__name__ != 'f':
        return f.__name__
    return repr([c.cell_contents for c in f.__closure__])[:70]


BUDGET = 20000000
GROWTH = 6
CASES = {'quick': 2 * len(CATALOG) + 2000, 'thorough': 40000}
RULE = RULE % len(CATALOG)


# ---------------------------------------------------------------- the check
def read(r, obs, pdf, pw, bad, caching=True):
    u = Use(obs, bad)
    kw = {} if caching else {'caching': False}
    u.document(pdf, pw, **kw)
    u.pages(pdf, pw, ignore_bad_chars=True, check_extractable=False, **kw)
    u.convert(pdf, r.choice(('json', 'xml', 'html', 'text', 'yaml')), pw, ignore_bad_chars=True, check_extractable=False, **kw)


def measure(r, obs, pdf, pw, budget, what, caching=True):
    """Steps taken to read everything in a document."""
    def bad(name, e):
        raise Violation('%s: %s: %s left the library' % (what, name, harness.short_tb(e)))
    with harness.steps(budget) as st:
        try:
            read(r, obs, pdf, pw, bad, caching)
        except StepBudget:
            raise Violation('%s: no result within %d steps of the code under test (file of %d bytes)' % (what, budget, len(pdf)))
    if st.n > budget:
        raise Violation('%s: more than %d steps of the code under test (file of %d bytes)' % (what, budget, len(pdf)))
    obs.count('steps', st.n)
    return st.n


def decoded(pdf, pw):
    """Bytes of all streams, as far as they can be read."""
    n = 0
    try:
        doc = PDFDocument(PDFParser(io.BytesIO(pdf)), password=pw)
        for num in {k for x in doc.xrefs for k in x.get_objids()}:
            try:
                o = doc.getobj(num)
                if isinstance(o, PDFStream):
                    n += len(o.get_data())
            except PDFMajorException:
                pass
    except PDFMajorException:
        pass
    return n


def bounded(r, obs, pdf, pw, what):
    with harness.steps(BUDGET):
        try:
            size = len(pdf) + decoded(pdf, pw)
        except StepBudget:
            raise Violation('%s: no result within %d steps of the code under test (file of %d bytes)' % (what, BUDGET, len(pdf)))
        except (RecursionError, TypeError, ValueError, LookupError, AttributeError, ArithmeticError, AssertionError) as e:
            raise Violation('%s: %s left the library' % (what, harness.short_tb(e)))
    n = measure(r, obs, pdf, pw, 1000000 + 600 * size, what)
    obs.peak('steps_per_byte', n // size)


def slot_of(r, doc, want):
    sl = []
    for num in sorted(doc.objs):
        mutate.slots(doc.objs[num][1], sl)
    mutate.slots(doc.trailer, sl)
    sl = [s for s in sl if s[1] is not None]
    hit = [s for s in sl if mutate.key(s) == want]
    if hit:
        return r.choice(hit)
    if r.random() < 0.5:
        # an entry the document does not have
        ds = [c for c, k in sl if isinstance(c, dict)]
        return r.choice(ds), Name(want)
    return r.choice(sl)


def case(r, i, tier, obs):
    if i < 2 * len(CATALOG) or i % 7 == 3 and tier == 'thorough':
        # every entry with and without caching, larger ones when there is time
        k = i if i < 2 * len(CATALOG) else i // 7
        f, n = CATALOG[k // 2 % len(CATALOG)]
        caching = k % 2 == 0
        if i >= 2 * len(CATALOG):
            n = max(2, int(n * r.choice((0.3, 0.7, 1.3, 2))))
        if not caching and n > 24:
            # every use reads its object again
            n = max(10, n // 3) if n < 500 else n // 16
        name = label(f)
        steps = []
        for m in (n, 2 * n):
            pdf = f(m)
            obs.artifact('pdf', pdf)
            steps.append(measure(r, obs, pdf, '', BUDGET, '%s of %d%s' % (name, m, '' if caching else ' (no caching)'), caching))
        if steps[1] > GROWTH * steps[0]:
            raise Violation('%s: %d steps at %d, %d steps at %d%s' % (name, steps[0], n, steps[1], 2 * n, '' if caching else ' (no caching)'))
        obs.count('catalogue')
        obs.count('uncached', not caching)
        obs.distinct('structures', name)
        obs.peak('growth_percent', 100 * steps[1] // steps[0])
        obs.nontrivial((name, n))
        return
    if i % 5 < 3:
        doc = faulty.base(r).doc
        mutate.freeze(doc)
        want = mutate.KEYS[i % len(mutate.KEYS)] if r.random() < 0.8 else '[]'
        name, shape = SHAPES[i // 5 % len(SHAPES)]
        c, k = slot_of(r, doc, want)
        if isinstance(k, Name) and k.n.decode('latin-1') in c:
            del c[k.n.decode('latin-1')]
        c[k] = shape(doc, r)
        what = '%s in %s' % (name, mutate.key((c, k)))
        pdf = doc.build(rng=r, layout=r.choice(('table', 'table', 'stream', 'hybrid')))
        obs.artifact('pdf', pdf)
        bounded(r, obs, pdf, '', what)
        obs.count('planted')
        obs.distinct('pairs', what)
        obs.distinct('keys', mutate.key((c, k)))
        obs.nontrivial(pdf)
        return
    pdf, pw, kind = faulty.make(r, obs, turn=i)
    obs.artifact('pdf', pdf)
    bounded(r, obs, pdf, pw, kind + ' fault')
    obs.count('faulty')
    obs.nontrivial(pdf)
