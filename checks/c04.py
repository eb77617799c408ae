"""Damaged cross-references: the objects in the file are still found."""
from vlib.harness import Violation
from vlib.pdfgen import Style, Stream, Name, Ref, Writer, Revision
from vlib.rand import rand_obj, rand_bytes
from vlib import lib

ID = 'C04'
LEVEL = 'fault_enumeration'
RULE = ('generated files with tables, hybrid sections and cross-reference streams (1-4 revisions, objects in the body and in object streams, hostile payloads) times enumerated damage: startxref number removed, replaced by '
        'every kind of wrong position, keyword removed; junk over the table (keyword, headers, entries, whole); then arbitrary damage and '
        'truncation judged on the error contract; a case is non-trivial when the fault changed the file, counted by distinct '
        '(fault kind, position class, file)')
ASSUMPTIONS = ['object headers stand on their own line, as every writer puts them',
               'with several revisions the startxref keyword is kept (the older one would be found)',
               'a stream whose Length cannot be known before the scan does not contain end markers']
CASES = {'quick': 700, 'thorough': 12000}
MIN = {'recovered': 3000, 'lookups': 30000, 'contract': 2500, 'documented_errors': 100, '#kinds': 7, 'updated_roots': 500, 'packed_lookups': 3000, 'newest_stream': 500, 'newest_info': 1500, 'large_objstm': 30, 'newest_table': 1500}

JUNK = [c for c in range(256) if chr(c) not in '0123456789fn+-_ \t\r\n\x0c\x0b\x00\x1c\x1d\x1e\x1f\x85\xa0']


def build(r):
    style = Style(r, r.choice((0.0, 0.3)))
    w = Writer(style=style, eol=r.choice((b'\n', b'\r\n', b'\r')))
    if r.random() < 0.3:
        w.header_ws = lambda: r.choice((b' ', b' ', b'  ', b'\t', b' \t'))
    kind = r.choice(('table', 'table', 'table', 'hybrid', 'stream', 'mixed'))
    n = 6 + r.randrange(0, 10)
    npages = r.randrange(1, 4)
    model = {}
    revs = r.choice((1, 1, 2, 3, 4))
    root = 1
    w.max_num = n if kind == 'table' else n + 700
    w.packed = set()
    # generation numbers of several digits, where the object is not in an object stream
    gens = {m: r.choice((1, 7, 10, 99, 4711, 65534)) for m in range(3 + npages, n + 1) if r.random() < 0.12}
    w.info = info = None
    w.many = 0
    for k in range(revs):
        objs = {}
        if k == 0:
            objs[1] = {'Type': Name('Catalog'), 'Pages': Ref(2)}
            objs[2] = {'Type': Name('Pages'), 'Kids': [Ref(3 + j) for j in range(npages)], 'Count': npages}
            for j in range(npages):
                objs[3 + j] = {'Type': Name('Page'), 'Parent': Ref(2), 'MediaBox': [0, 0, 100 + j, 200 + r.randrange(50)], 'M': rand_bytes(r, 4)}
            rest = range(3 + npages, n + 1)
        else:
            rest = r.sample(range(3 + npages, n + 1), r.randrange(0, n - 2 - npages))
            if r.random() < 0.4:
                j = r.randrange(npages)
                objs[3 + j] = dict(model[3 + j], V=k)
        for m in rest:
            x = r.random()
            if x < 0.35:
                body = rand_bytes(r, r.randrange(0, 80))
                if r.random() < 0.5:
                    body += r.choice((b'\n9 0 obj\n', b'\nxref\n0 1\n', b'\ntrailer\n<< /Root 7 0 R >>\n', b' endobj ', b'\n4 0 obj << /X 1 >> endobj\n')) + rand_bytes(r, 5)
                s = Stream({'K': k}, body.replace(b'endstream', b'x'))
                if r.random() < 0.2:
                    s.length_ref = n + 1 + 40 * k + m
                objs[m] = s
            else:
                objs[m] = [m, k, rand_obj(r, 2, refs=list(range(1, n + 1)))]
        if k and r.random() < 0.3:
            # the update has a root, and perhaps a page list, of its own
            root = n + 300 + k
            pn = 2
            if r.random() < 0.5:
                pn = n + 350 + k
                kids = r.sample(range(npages), r.randrange(1, npages + 1))
                objs[pn] = {'Type': Name('Pages'), 'Kids': [Ref(3 + j) for j in kids], 'Count': len(kids)}
            objs[root] = {'Type': Name('Catalog'), 'Pages': Ref(pn), 'V': k}
        if r.random() < 0.5:
            info = n + 600 + k
            objs[info] = {'Title': b'%d' % k}
            w.info = objs[info]
        layout = r.choice(('table', 'hybrid', 'stream')) if kind == 'mixed' else kind
        if layout != 'table' and r.random() < 0.05:
            w.many = 130 + r.randrange(60)
            objs.update((n + 400 + j, [j, k]) for j in range(w.many))
        packed = ()
        if layout != 'table' and r.random() < 0.8:
            packed = [a for a, v in objs.items() if not isinstance(v, Stream) and a not in gens and r.random() < (0.95 if w.many else 0.6)]
            w.packed.update(packed)
        for a in objs:
            if a not in packed:
                w.packed.discard(a)
        tr = {'Root': Ref(root)}
        if info:
            tr['Info'] = Ref(info)
        w.revision(Revision({a: (gens.get(a, 0), v) for a, v in objs.items()}, layout, packed, trailer=tr, nobjstm=r.choice((1, 1, 2, 3)), split_table=r.random() < 0.3,
                            index_split=r.random() < 0.3, xref_filter=r.random() < 0.6, objstm_extends=r.random() < 0.3), r)
        model.update(objs)
    return w, model, n, revs, root


def startxref_number(data):
    a = data.rindex(b'startxref') + len(b'startxref')
    while data[a] in b'\r\n':
        a += 1
    b = a
    while chr(data[b]).isdigit():
        b += 1
    return a, b


def damage(r, w, data, revs):
    """-> (kind, damaged file)"""
    a, b = startxref_number(data)
    kind, start, end = w.sections[-1]
    k = r.randrange(9)
    if kind == 'stream':
        # the dictionary is the trailer and the entries may be compressed: only the way to it is damaged
        k = r.choice((0, 1, 2, 3, 4, 5) if revs == 1 else (0, 2, 3, 4, 5))
    else:
        table_end = w.trailer_spans[-1][0]
        while data[table_end - 1] in b' \r\n':
            table_end -= 1
    if k == 0:
        return 'number-removed', data[:a] + data[b:]
    if k == 1 and revs == 1:
        c = data.rindex(b'startxref')
        x = r.random()
        if x < 0.4:
            return 'tail-removed', data[:c]
        return 'keyword-removed', data[:c] + data[a:]
    if k == 2:
        return 'number-junk', data[:a] + bytes(r.choice(JUNK) for _ in range(r.randrange(1, 6))) + data[b:]
    if k in (3, 4, 5):
        bad = set(s[1] for s in w.sections)

        def near(q):
            # a later digit of the number of a cross-reference stream denotes it as well
            return any(s[0] == 'stream' and s[1] < q < s[1] + 8 for s in w.sections)
        while True:
            x = r.random()
            if x < 0.3:
                p = r.randrange(0, len(data))
            elif x < 0.5:
                p = r.randrange(start, len(data))
            elif x < 0.6:
                p = r.choice((0, 1, len(data), len(data) + 1, len(data) * 10, 10 ** 10, 10 ** 30, -1, -20, 2 ** 63, 2 ** 31))
            elif x < 0.75:
                p = r.choice([s[0] for s in w.obj_spans.values()]) + r.choice((0, 0, 1, -1, 2, 5))
            elif x < 0.85:
                p = r.choice([s[0] for s in w.trailer_spans] or [5]) + r.choice((0, 1, -1, -2, 8))
            else:
                p = start + r.choice((1, 2, 3, 4, 5, 6, 8))
            # white space and comments in front of a section still denote it
            q = p
            while 0 <= q < len(data) and data[q] in b'%\x00\t\n\x0c\r ':
                if data[q] == 37:
                    while q < len(data) and data[q] not in b'\r\n':
                        q += 1
                else:
                    q += 1
            if q not in bad and not near(q):
                break
        return 'number-wrong', data[:a] + b'%d' % p + data[b:]
    d = bytearray(data)
    if k == 6 or (k != 7 and table_end < start + 8):
        d[start:table_end] = bytes(r.choice(JUNK) for _ in range(table_end - start))
        return 'table-wiped', bytes(d)
    if k == 7:
        d[start + r.randrange(4)] = r.choice(JUNK)
        return 'table-keyword', bytes(d)
    lo = start + 5
    for _ in range(r.choice((1, 1, 2, 5, 30))):
        p = r.randrange(lo, table_end)
        if d[p] in b'\r\n ' and r.random() < 0.5:
            continue
        d[p] = r.choice(JUNK)
    if bytes(d) == data:
        d[lo] = 0x7a
    return 'table-bytes', bytes(d)


def check_model(doc, model, what, obs):
    for m, v in model.items():
        obs.count('lookups')
        try:
            got = doc.getobj(m)
        except lib.ex.PDFObjectNotFound:
            raise Violation('%s: object %d not found' % (what, m))
        d = lib.diff(lib.expect(v), lib.canon(got))
        if d:
            raise Violation('%s: object %d: %s' % (what, m, d))


def page_ids(doc):
    return [(p.pageid, p.mediabox, lib.canon(p.attrs.get('M'))) for p in lib.PDFPage.create_pages(doc)]


def case(r, i, tier, obs):
    w, model, n, revs, root = build(r)
    data = w.bytes()
    obs.artifact('intact.pdf', data)
    doc = lib.open_doc(data)
    check_model(doc, model, 'intact', obs)
    want = page_ids(doc)
    for _ in range(6):
        kind, bad = damage(r, w, data, revs)
        obs.artifact('in.pdf', bad)
        obs.distinct('kinds', kind)
        doc = lib.open_doc(bad)
        check_model(doc, model, kind, obs)
        dif = lib.diff(lib.expect(model[root]), lib.canon(doc.catalog))
        if dif:
            raise Violation('%s: root: %s' % (kind, dif))
        if w.info is not None:
            # the list has one entry per section that was read, the newest first
            if not doc.info or lib.canon(doc.info[0]) != lib.expect(w.info):
                raise Violation('%s: information %r, the newest is %r' % (kind, doc.info, w.info))
            obs.count('newest_info')
        obs.count('large_objstm', int(w.many > 0))
        obs.count('updated_roots', int(root > 1))
        obs.count('packed_lookups', len(w.packed))
        obs.count('newest_' + w.sections[-1][0])
        got = page_ids(doc)
        if got != want:
            raise Violation('%s: pages %r, intact %r' % (kind, got, want))
        obs.count('recovered')
        obs.nontrivial((kind, bad))
    # arbitrary damage: error contract
    start = w.sections[-1][1]
    for _ in range(6):
        d = bytearray(data)
        x = r.random()
        if x < 0.35:
            d = d[:r.randrange(0, len(d))]
        else:
            for _ in range(r.choice((1, 2, 4, 10))):
                p = r.randrange(start, len(d)) if r.random() < 0.9 else r.choice([s[1] for s in w.sections])
                y = r.random()
                if y < 0.4:
                    d[p] = r.randrange(256)
                elif y < 0.7:
                    d[p] = r.choice(b'0123456789 \r\n<>/[]()RnfS')
                elif y < 0.85:
                    del d[p:p + r.choice((1, 1, 3, 20))]
                else:
                    d[p:p] = r.choice((b'0', b'9', b' ', b'\n', b'/Prev 3', b'/Root 3', b'/XRefStm 17', b'/Prev -4 ', b'/Prev (a)', b'/Size', b'<<'))
                if start >= len(d):
                    break
        bad = bytes(d)
        obs.artifact('in.pdf', bad)
        obs.count('contract')
        try:
            doc = lib.open_doc(bad)
            for m in list(model) + [n + 500]:
                try:
                    doc.getobj(m)
                except lib.ex.PDFMajorException:
                    obs.count('documented_errors')
        except lib.ex.PDFMajorException:
            obs.count('documented_errors')
        obs.nontrivial(('c', bad))
