"""Pages come in tree order with inherited attributes."""
import io
from vlib.harness import Violation
from vlib.pdfgen import Style, Stream, Name, Ref, Writer, Revision, HELV
from vlib import lib

ID = 'C11'
LEVEL = 'exploration'
RULE = ('random page trees (flat, deep, skewed, empty inner nodes), every inheritable attribute placed at random levels, direct or indirect; delivered page '
        'sequence compared with the model walk through both public readers, then with random page selections; non-trivial when the tree has an inner node '
        'or an inherited attribute, counted by distinct (tree shape, attribute placement)')
ASSUMPTIONS = ['every page has a MediaBox somewhere on its path', 'kids are indirect references, as the format demands']
CASES = {'quick': 1600, 'thorough': 25000}
MIN = {'pages': 6000, 'inherited': 8000, 'overridden': 2000, 'selections': 1500, 'maxpages': 800, 'rotated': 2000, 'placed': 5000, '#shapes': 400}

ATTRS = ('MediaBox', 'CropBox', 'Rotate', 'Resources')


def gen(r, obs):
    objs = {}
    num = [2]
    pages = []
    shape = []

    def alloc():
        num[0] += 1
        return num[0]

    def ind(v, p):
        if r.random() < p:
            n = alloc()
            objs[n] = v
            return Ref(n)
        return v

    def attr(name, d, spot):
        p = r.random()
        if name in ('MediaBox', 'CropBox'):
            x0, y0 = r.choice(((0, 0), (0, 0), (10, 20), (-5.5, 7)))
            v = [x0, y0, x0 + r.randrange(10, 900), y0 + r.randrange(10, 900) + r.choice((0, 0.5))]
            if r.random() < 0.1:  # any two opposite corners
                v = r.choice(([v[2], v[3], v[0], v[1]], [v[0], v[3], v[2], v[1]], [v[2], v[1], v[0], v[3]]))
                obs.count('other_corners')
            val = list(v)
            if r.random() < 0.1:
                v = [ind(x, 0.5) for x in v]
            d[name] = ind(v, 0.2)
            return val
        if name == 'Rotate':
            v = r.choice((0, 90, 180, 270, 360, -90, 450))
            d[name] = ind(v, 0.2)
            return v
        f = 'F%d' % r.randrange(10 ** 6)
        v = {'Font': {f: fonts}, 'Marker': f.encode()}
        d[name] = ind(v, 0.4)
        return f
    fonts = dict(HELV)

    def node(depth, inh, parent, budget):
        me = alloc()
        d = {'Type': Name('Pages')}
        if parent:
            d['Parent'] = Ref(parent)
        inh = dict(inh)
        for a in ATTRS:
            if r.random() < (0.35 if a != 'MediaBox' else 0.3):
                if a in inh:
                    obs.count('overridden')
                inh[a] = attr(a, d, 'node')
        kids = []
        shape.append('(')
        for _ in range(r.choice((0, 1, 2, 3, 4, 8)) if depth < maxdepth else r.choice((1, 2, 5))):
            if num[0] > budget:
                break
            if depth < maxdepth and r.random() < pdeep:
                kids.append(Ref(node(depth + 1, inh, me, budget)))
            else:
                kids.append(Ref(leaf(inh, me)))
                shape.append('p')
        shape.append(')')
        d['Kids'] = ind(kids, 0.2)
        d['Count'] = len(kids)
        objs[me] = d
        return me

    def leaf(inh, parent):
        me = alloc()
        d = {'Type': Name('Page'), 'Parent': Ref(parent)}
        own = dict(inh)
        for a in ATTRS:
            if (a == 'MediaBox' and a not in inh) or r.random() < 0.25:
                if a in inh:
                    obs.count('overridden')
                own[a] = attr(a, d, 'leaf')
            elif a in inh:
                obs.count('inherited')
        text = 'page%d' % me
        if own.get('Resources'):
            c = alloc()
            objs[c] = Stream({}, RECT + b' BT /%s 5 Tf 1 2 Td (%s) Tj ET' % (own['Resources'].encode(), text.encode()))
            d['Contents'] = Ref(c)
        else:
            text = ''
            if r.random() < 0.5:
                c = alloc()
                objs[c] = Stream({}, RECT)
                d['Contents'] = Ref(c)
                text = '-'
        objs[me] = d
        pages.append((me, own, text))
        return me
    maxdepth = r.choice((0, 1, 2, 3, 6, 30))
    pdeep = r.choice((0.1, 0.5, 0.9))
    catinh = {}
    root = node(0, catinh, None, r.choice((20, 60, 120)))
    objs[1] = {'Type': Name('Catalog'), 'Pages': Ref(root)}
    return objs, pages, ''.join(shape)


RECT = b'3 4 5 7.5 re f'


def placed(own):
    # where the rectangle comes to lie
    x0, y0, x1, y1 = own['MediaBox']
    x0, x1, y0, y1 = min(x0, x1), max(x0, x1), min(y0, y1), max(y0, y1)
    rot = own.get('Rotate', 0) % 360

    def at(x, y):
        return {0: (x - x0, y - y0), 90: (y - y0, x1 - x), 180: (x1 - x, y1 - y), 270: (y1 - y, x - x0)}[rot]
    (a, b), (c, d) = at(3, 4), at(8, 11.5)
    return [float(min(a, c)), float(min(b, d)), float(max(a, c)), float(max(b, d))]


def describe(me, own):
    rot = own.get('Rotate', 0) % 360
    mb = own['MediaBox']
    return (me, mb, own.get('CropBox', mb), rot, own.get('Resources'))


def look(p):
    res = lib.PDFPage  # noqa
    m = p.resources.get('Marker') if isinstance(p.resources, dict) else None
    return (p.pageid, list(p.mediabox), list(p.cropbox), p.rotate, m.decode() if m else None)


def case(r, i, tier, obs):
    objs, pages, shape = gen(r, obs)
    w = Writer(style=Style(r, r.choice((0, 0.4))))
    w.max_num = max(objs)
    layout = r.choice(('table', 'stream'))
    w.revision(Revision({a: (0, v) for a, v in objs.items()}, layout=layout, packed=[n for n in objs if r.random() < 0.5],
                        trailer={'Root': Ref(1)}), r)
    data = w.bytes()
    obs.artifact('in.pdf', data)
    obs.distinct('shapes', shape)
    want = [describe(me, own) for me, own, t in pages]
    got = [look(p) for p in lib.PDFPage.get_pages(io.BytesIO(data))]
    if not want:
        if got:
            raise Violation('pages delivered from an empty tree: %r' % got)
        return
    d = lib.diff(want, got, 'pages')
    if d:
        raise Violation('tree %s: %s' % (shape[:80], d))
    obs.count('pages', len(want))
    obs.count('rotated', sum(1 for x in want if x[3]))
    if '(' in shape[1:] or any('MediaBox' not in objs[me] for me, o, t in pages):
        obs.nontrivial((shape, repr(want)))
    # through the interpreter, with selections
    n = len(pages)
    sels = [({}, list(range(n)))]
    for _ in range(2):
        s = sorted(set(r.randrange(n) for _ in range(r.randrange(1, 5))))
        if r.random() < 0.3:
            s.append(n + r.randrange(5))
        k = list(s)
        r.shuffle(k)
        if r.random() < 0.4:
            k = r.choice((set(k), tuple(k), frozenset(k)))
        sels.append(({'pagenos': k}, [x for x in s if x < n]))
        obs.count('selections')
    mx = r.choice((1, 2, n, n + 3, max(1, n - 1), r.randrange(1, n + 1)))
    sels.append(({'maxpages': mx}, list(range(min(mx, n)))))
    obs.count('maxpages')
    if r.random() < 0.3:
        sels.append(({'maxpages': 0, 'pagenos': None}, list(range(n))))
    for kw, idx in sels[(0 if n < 20 or i % 4 == 0 else 1):]:
        if n >= 20 and len(idx) > 12 and i % 4:
            continue
        exp = []
        for k, j in enumerate(idx):
            me, own, text = pages[j]
            x0, y0, x1, y1 = own['MediaBox']
            wd, ht = abs(x1 - x0), abs(y1 - y0)
            if own.get('Rotate', 0) % 180:
                wd, ht = ht, wd
            exp.append((k, float(wd), float(ht), text.strip('-'), placed(own) if text else None))
        if not exp:
            continue
        if r.random() < 0.3:
            kw['preload'] = True
        got = []
        for p in lib.interp(data, **kw):
            t = b = None
            if not kw.get('preload'):
                its = list(p)
                t = ''.join(lib.text_of(x) for x in its)
                for x in its[:1]:
                    b = [float(v) for v in (x.x0, x.y0, x.x1, x.y1)]
                    obs.count('placed')
            got.append((p.page_num, float(p.width), float(p.height), t, b))
        if kw.get('preload'):
            exp = [e[:3] + (None, None) for e in exp]
        d = lib.diff(exp, got, 'interpreted pages')
        if d:
            raise Violation('selection %r of %d pages: %s' % (kw, n, d))
        kw.pop('preload', None)
        g2 = [p.pageid for p in lib.PDFPage.get_pages(io.BytesIO(data), **kw)]
        if g2 != [pages[j][0] for j in idx]:
            raise Violation('selection %r: pages %r expected %r' % (kw, g2, [pages[j][0] for j in idx]))
    if i < 2:
        obs.sample({'shape': shape, 'pages': want[:3]})


def deep(obs):
    """A chain of three thousand inner nodes."""
    n = 3000
    objs = {1: (0, {'Type': Name('Catalog'), 'Pages': Ref(10)})}
    for k in range(n):
        objs[10 + k] = (0, {'Type': Name('Pages'), 'Kids': [Ref(11 + k), Ref(20000 + k)], 'Count': 2})
    objs[10][1]['MediaBox'] = [0, 0, 7, 8]
    objs[10 + n] = (0, {'Type': Name('Pages'), 'Kids': [], 'Count': 0})
    for k in range(n):
        objs[20000 + k] = (0, {'Type': Name('Page'), 'Parent': Ref(10 + k)})
    w = Writer(keep_order=True)
    w.revision(Revision(objs, trailer={'Root': Ref(1)}))
    got = [p.pageid for p in lib.PDFPage.get_pages(io.BytesIO(w.bytes()))]
    if got != [20000 + k for k in reversed(range(n))]:
        raise Violation('deep tree: %d pages %r' % (len(got), got[:5]))


PROBES = [('deep', deep)]
