"""Outlines and named destinations are complete and ordered."""
from vlib.harness import Violation
from vlib.pdfgen import Style, Name, Ref, Writer, Revision
from vlib.rand import rand_bytes
from vlib import lib

ID = 'C12'
LEVEL = 'exploration'
RULE = ('random outline trees with titles in both text encodings and name trees of random shape plus the older dictionary; the delivered sequence and each '
        'lookup (present, absent, neighbouring names) compared with the model; non-trivial when there is an outline entry below the top level or a name '
        'tree with kids, counted by distinct (outline shape, tree shape)')
ASSUMPTIONS = ['entries with neither destination nor action are not delivered (the API reports destinations)',
               'names are ASCII in the older dictionary; byte strings in name trees']
CASES = {'quick': 2500, 'thorough': 40000}
MIN = {'entries': 8000, 'utf16': 2500, 'headings': 1000, 'lookups': 20000, 'absent': 8000, '#shapes': 300, 'treekids': 800, 'olddict': 500, 'nooutline': 100}

# ISO 32000-1 Annex D.2, independent table
PDFDOC = {i: i for i in range(32, 127)}
PDFDOC.update({i: i for i in range(161, 256) if i != 173})
PDFDOC.update(dict(zip(range(0x18, 0x20), (0x2d8, 0x2c7, 0x2c6, 0x2d9, 0x2dd, 0x2db, 0x2da, 0x2dc))))
PDFDOC.update(dict(zip(range(0x80, 0x9f), (
    0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203a, 0x2212, 0x2030, 0x201e, 0x201c, 0x201d, 0x2018, 0x2019, 0x201a,
    0x2122, 0xfb01, 0xfb02, 0x141, 0x152, 0x160, 0x178, 0x17d, 0x131, 0x142, 0x153, 0x161, 0x17e))))
PDFDOC[0xa0] = 0x20ac
PDFDOC.update({9: 9, 10: 10, 13: 13})


def title(r, obs):
    """-> (bytes, text)"""
    if r.random() < 0.45:
        t = ''.join(r.choice('aZ \u00e9\u4e2d\u0416\u2028\U0001f600()\\\n' + ('\x00' if r.random() < 0.05 else '')) for _ in range(r.randrange(0, 15)))
        obs.count('utf16')
        return b'\xfe\xff' + t.encode('utf-16-be'), t
    b = bytes(r.choice(list(PDFDOC)) for _ in range(r.randrange(0, 15)))
    if b[:2] == b'\xfe\xff':
        b = b'x' + b
    return b, ''.join(chr(PDFDOC[c]) for c in b)


def dest(r):
    return [Ref(3), Name(r.choice(('XYZ', 'Fit', 'FitH'))), r.randrange(800), None, 0]


def outline(r, objs, alloc, obs, shape, out, level, budget):
    """-> (first, last) object numbers of a sibling list"""
    n = r.choice((1, 1, 2, 3, 5))
    nums = [alloc() for _ in range(n)]
    for k, m in enumerate(nums):
        d = {}
        tb, tt = title(r, obs)
        d['Title'] = tb
        rec = None
        x = r.random()
        if x < 0.45:
            v = r.choice((dest(r), b'name', Name('Old')))
            d['Dest'] = v
            rec = (level, tt, v, None, None)
        elif x < 0.8:
            v = {'S': Name('GoTo'), 'D': dest(r)} if r.random() < 0.6 else {'S': Name('URI'), 'URI': b'http://x/'}
            d['A'] = v
            rec = (level, tt, None, v, None)
        else:
            obs.count('headings')
        if rec and r.random() < 0.2:
            d['SE'] = Ref(3)
            rec = rec[:4] + (Ref(3),)
        if rec:
            out.append(rec)
            obs.count('entries')
        shape.append('e' if rec else 'h')
        if level < 6 and budget[0] > 0 and r.random() < 0.35:
            budget[0] -= 1
            shape.append('(')
            a, b = outline(r, objs, alloc, obs, shape, out, level + 1, budget)
            shape.append(')')
            d['First'], d['Last'], d['Count'] = Ref(a), Ref(b), r.choice((1, -1)) * 1
        if k:
            d['Prev'] = Ref(nums[k - 1])
        if k + 1 < n:
            d['Next'] = Ref(nums[k + 1])
        objs[m] = d
    return nums[0], nums[-1]


def nametree(r, objs, alloc, pairs, obs, depth=0):
    """pairs sorted -> node dict (without Limits)"""
    if len(pairs) <= 1 or depth > 5 or r.random() < 0.3:
        flat = []
        for k, v in pairs:
            flat += [k, v]
        if r.random() < 0.2:
            n = alloc()
            objs[n] = flat
            return {'Names': Ref(n)}
        return {'Names': flat}
    obs.count('treekids')
    kids = []
    i = 0
    wide = r.random() < 0.3
    while i < len(pairs):
        n = 1 if wide else r.choice((1, 1, 2, 3, max(1, len(pairs) // 2)))
        part = pairs[i:i + n]
        i += n
        d = nametree(r, objs, alloc, part, obs, depth + 1)
        d['Limits'] = [part[0][0], part[-1][0]]
        m = alloc()
        objs[m] = d
        kids.append(Ref(m))
    return {'Kids': kids}


def case(r, i, tier, obs):
    objs = {}
    num = [10]

    def alloc():
        num[0] += 1
        return num[0]
    objs[1] = cat = {'Type': Name('Catalog'), 'Pages': Ref(2)}
    objs[2] = {'Type': Name('Pages'), 'Kids': [Ref(3)], 'Count': 1}
    objs[3] = {'Type': Name('Page'), 'Parent': Ref(2), 'MediaBox': [0, 0, 9, 9]}
    shape, out = [], []
    has_outline = r.random() < 0.92
    if has_outline:
        root = {'Type': Name('Outlines')}
        if r.random() < 0.95:
            a, b = outline(r, objs, alloc, obs, shape, out, 1, [12])
            root['First'], root['Last'], root['Count'] = Ref(a), Ref(b), 1
        objs[4] = root
        cat['Outlines'] = Ref(4)
    # destinations
    tree = {}
    if r.random() < 0.75:
        for _ in range(r.choice((0, 1, 3, 8, 30)) if r.random() < 0.96 else 150):
            k = bytes(r.choice(b'abcABC.0 \xff\x00(') for _ in range(r.randrange(1, 5))) if r.random() < 0.7 else rand_bytes(r, 6)
            tree[k] = dest(r) if r.random() < 0.6 else {'D': dest(r)}
        pairs = []
        for k in sorted(tree):
            v = tree[k]
            if r.random() < 0.4:
                n = alloc()
                objs[n] = v
                v = Ref(n)
            pairs.append((k, v))
        node = nametree(r, objs, alloc, pairs, obs)
        if r.random() < 0.5:
            objs[5] = node
            node = Ref(5)
        cat['Names'] = {'Dests': node}
        if r.random() < 0.3:
            objs[6] = cat['Names']
            cat['Names'] = Ref(6)
    elif r.random() < 0.3:
        cat['Names'] = {'JavaScript': {'Names': []}}
    old = {}
    if r.random() < 0.5:
        for _ in range(r.choice((0, 1, 5))):
            v = dest(r)
            old['N%d' % r.randrange(30)] = v if r.random() < 0.6 else {'D': v}
        objs[7] = dict(old)
        cat['Dests'] = Ref(7)
        obs.count('olddict')
    w = Writer(style=Style(r, r.choice((0, 0.4))))
    w.max_num = max(objs)
    w.revision(Revision({a: (0, v) for a, v in objs.items()}, layout=r.choice(('table', 'stream')), packed=[n for n in objs if r.random() < 0.5],
                        trailer={'Root': Ref(1)}), r)
    data = w.bytes()
    obs.artifact('in.pdf', data)
    doc = lib.open_doc(data)
    s = ''.join(shape)
    obs.distinct('shapes', s)
    if not has_outline:
        obs.count('nooutline')
        try:
            x = list(doc.get_outlines())
            raise Violation('outline delivered where there is none: %r' % x)
        except lib.ex.PDFNoOutlines:
            pass
    else:
        got = [(lv, t, lib.canon(d), lib.canon(a), lib.canon(se)) for lv, t, d, a, se in doc.get_outlines()]
        want = [(lv, t, lib.expect(d), lib.expect(a), lib.expect(se)) for lv, t, d, a, se in out]
        d = lib.diff(want, got, 'outline')
        if d:
            raise Violation('outline %s: %s' % (s[:60], d))
    if '(' in s or 'Kids' in repr(objs):
        obs.nontrivial((s, repr(sorted(tree))))
    probes = list(tree) + [k + b'\x00' for k in tree] + [k[:-1] for k in tree] + [b'', b'zzzzzz', b'N1', bytes([r.randrange(256)])]
    r.shuffle(probes)
    for k in probes[:30]:
        obs.count('lookups')
        if k in tree:
            v = tree[k]
        else:
            v = None
        lookup(doc, k, v, obs)
    for k in list(old) + ['N31', 'Other']:
        obs.count('lookups')
        lookup(doc, k, old.get(k), obs)
    if i < 2:
        obs.sample({'outline': s, 'titles': [o[1] for o in out[:5]], 'names': [repr(k) for k in list(tree)[:5]]})


def lookup(doc, k, v, obs):
    try:
        got = doc.get_dest(k)
    except lib.ex.PDFDestinationNotFound:
        if v is not None:
            raise Violation('destination %r not found, is %r' % (k, v))
        obs.count('absent')
        return
    if v is None:
        raise Violation('destination %r does not exist but gave %r' % (k, got))
    from pdfmajor.parser.PDFStream import resolve1
    d = lib.diff(lib.expect(v), lib.canon(resolve1(got)))
    if d:
        raise Violation('destination %r: %s' % (k, d))


def long(obs):
    """Five thousand siblings, three thousand levels."""
    for n, link in ((5000, 'Next'), (3000, 'First')):
        objs = {1: (0, {'Type': Name('Catalog'), 'Outlines': Ref(4)}), 4: (0, {'First': Ref(10), 'Last': Ref(10)})}
        for k in range(n):
            d = {'Title': b'%d' % k, 'Dest': b'x'}
            if k + 1 < n:
                d[link] = Ref(11 + k)
                if link == 'First':
                    d['Last'] = Ref(11 + k)
            objs[10 + k] = (0, d)
        w = Writer(keep_order=True)
        w.revision(Revision(objs, trailer={'Root': Ref(1)}))
        got = [(x[0], x[1]) for x in lib.open_doc(w.bytes()).get_outlines()]
        if got != [(1 if link == 'Next' else 1 + k, '%d' % k) for k in range(n)]:
            raise Violation('%s: %d entries' % (link, len(got)))


PROBES = [('long', long)]
