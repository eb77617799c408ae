"""Cross-reference data resolves every object to its newest definition."""
from vlib.harness import Violation
from vlib.pdfgen import Style, Stream, Name, Ref, Writer, Revision, FREE
from vlib.rand import rand_obj, rand_bytes
from vlib import lib

ID = 'C03'
LEVEL = 'exploration'
RULE = ('random histories of incremental updates (define, redefine, free, re-use; table, stream, hybrid sections, object streams); every '
        'prefix that ends a revision is opened too and every number looked up in random order; a case is non-trivial when the history has '
        'at least two revisions, counted by distinct (layout sequence, operation sequence)')
ASSUMPTIONS = ['the independent multi-revision writer follows ISO 32000-1 7.5.4-7.5.8',
               'generation numbers above zero appear only on re-use of a freed number']
CASES = {'quick': 1000, 'thorough': 20000}
MIN = {'lookups': 30000, 'redefined': 3000, 'freed_seen': 1000, 'reused': 200, 'compressed': 2000, 'hybrid': 300, 'absent': 1000,
       'prefixes': 1500, '#layouts': 60}


def build(r, obs, tier):
    n_rev = r.choice((1, 2, 2, 3, 3, 4, 6) if r.random() < 0.97 else (25, 60))
    style = Style(r, r.choice((0.0, 0.3, 0.8)), nul_ws=True)
    w = Writer(style=style, eol=r.choice((b'\n', b'\r\n', b'\r')))
    if r.random() < 0.3:
        w.header_ws = lambda: r.choice((b' ', b' ', b'  ', b'\t', b'\n', b'\r\n', b'\x0c', b' %x\n'))
    model = {}          # num -> (gen, value|FREE)
    snaps = []
    reserved = 6 + r.randrange(0, 20)
    if n_rev < 4 and r.random() < 0.02:
        # one object stream with hundreds of members
        reserved = r.choice((140, 270, 530))
    w.max_num = reserved
    ops = []
    layouts = []
    listed = set()
    info_ref = None
    big = n_rev > 10
    for k in range(n_rev):
        objs = {}
        if k == 0:
            objs[1] = (0, {'Type': Name('Catalog'), 'Pages': Ref(2), 'V': k})
            objs[2] = (0, {'Type': Name('Pages'), 'Kids': [Ref(3)], 'Count': 1})
            objs[3] = (0, {'Type': Name('Page'), 'Parent': Ref(2), 'MediaBox': [0, 0, 9, 9]})
            objs[4] = (0, {'Title': b't0'})
            info_ref = 4
            todo = [n for n in range(5, reserved + 1) if r.random() < 0.8]
        else:
            todo = r.sample(range(5, reserved + 1), r.randrange(0, min(8, reserved - 4)))
            if r.random() < 0.4:
                objs[1] = (0, {'Type': Name('Catalog'), 'Pages': Ref(2), 'V': k})
            if r.random() < 0.3:
                objs[4] = (0, {'Title': b't%d' % k})
        for n in todo:
            cur = model.get(n)
            x = r.random()
            if cur is not None and cur[1] is FREE:
                if x < 0.6:
                    objs[n] = (cur[0], value(r, n, k))
                    ops.append('reuse')
                    obs.count('reused')
                continue
            if cur is not None and x < 0.3:
                objs[n] = (cur[0] + 1, FREE)
                ops.append('free')
            else:
                objs[n] = (cur[0] if cur else 0, value(r, n, k))
                ops.append('redef' if cur else 'def')
                if cur:
                    obs.count('redefined')
        layout = r.choice(('table', 'table', 'stream', 'stream', 'hybrid'))
        layouts.append(layout)
        packed = ()
        if layout != 'table':
            p = r.choice((0, 0.3, 0.8, 1.0))
            packed = set(n for n in objs if r.random() < p)
        before = w.max_num
        ent = w.revision(Revision(objs, layout=layout, packed=packed, nobjstm=r.choice((1, 1, 2, 3)),
                                  trailer={'Root': Ref(1), 'Info': Ref(info_ref)},
                                  w=r.choice((None, None, (1, r.randrange(1, 9), r.randrange(0, 4)), (0, 4, 0), (2, 3, 2))),
                                  index_split=r.random() < 0.5, split_table=r.random() < 0.5,
                                  xref_filter=r.random() < 0.6, objstm_extends=r.random() < 0.5,
                                  xref_pred=r.random() < 0.3), r)
        for n, (g, v) in objs.items():
            model[n] = (g, v)
        for n, e in ent.items():
            if e[0] != 'f':
                listed.add(n)
            if e[0] == 'c':
                obs.count('compressed')
        if layout == 'hybrid':
            obs.count('hybrid')
        own = set(range(before + 1, w.max_num + 1))
        snaps.append((len(w.out), dict(model), set(listed), own))
    obs.distinct('layouts', tuple(layouts[:4]))
    return w, snaps, layouts, ops, reserved


def value(r, n, k):
    v = rand_obj(r, 1)
    x = r.random()
    if x < 0.2:
        return Stream({'N': n, 'K': k}, rand_bytes(r, r.randrange(0, 50)))
    return [n, k, v]


def verify(doc, model, reserved, hidden, obs, r, what):
    nums = list(range(1, reserved + 1)) + [reserved + 5000]
    r.shuffle(nums)
    for n in nums:
        if n in hidden:
            continue
        obs.count('lookups')
        m = model.get(n)
        try:
            got = doc.getobj(n)
        except lib.ex.PDFObjectNotFound:
            if m is None or m[1] is FREE:
                obs.count('absent')
                if m is not None:
                    obs.count('freed_seen')
                continue
            raise Violation('%s: object %d not found, expected %s' % (what, n, lib.short(m[1])))
        if m is None or m[1] is FREE:
            raise Violation('%s: object %d is %s but was found as %r' % (what, n, 'free' if m else 'undefined', got))
        d = lib.diff(lib.expect(m[1]), lib.canon(got))
        if d:
            raise Violation('%s: object %d: %s' % (what, n, d))
    cat = lib.canon(doc.catalog)
    d = lib.diff(lib.expect(model[1][1]), cat)
    if d:
        raise Violation('%s: catalog: %s' % (what, d))
    d = lib.diff(lib.expect(model[4][1]), lib.canon(doc.info[0]))
    if d:
        raise Violation('%s: info: %s' % (what, d))


def case(r, i, tier, obs):
    w, snaps, layouts, ops, reserved = build(r, obs, tier)
    data = w.bytes()
    hidden = set()
    todo = list(enumerate(snaps))
    if len(todo) > 6:
        todo = r.sample(todo[:-1], 4) + [todo[-1]]
    for k, (end, model, listed, own) in todo:
        part = data[:end]
        obs.artifact('in.pdf', part)
        doc = lib.open_doc(part, caching=r.random() < 0.7)
        what = 'after revision %d of %s' % (k + 1, '/'.join(layouts[:k + 1][-6:]))
        verify(doc, model, reserved, hidden, obs, r, what)
        ids = set()
        for x in doc.xrefs:
            ids.update(x.get_objids())
        if ids - {0} != listed:
            raise Violation('%s: object numbers reported %s, listed in use %s' % (
                what, sorted(ids - listed)[:8], sorted(listed - ids)[:8]))
        obs.count('prefixes')
    if len(snaps) > 1:
        obs.nontrivial((tuple(layouts), tuple(ops)))
    if i < 2:
        obs.sample({'layouts': layouts, 'ops': ops[:20], 'bytes': len(data)})


def deep(obs):
    """A thousand revisions."""
    w = Writer()
    w.max_num = 4
    objs = {1: (0, {'Type': Name('Catalog'), 'Pages': Ref(2)}), 2: (0, {'Type': Name('Pages'), 'Kids': [], 'Count': 0}), 3: (0, 0)}
    w.revision(Revision(objs, trailer={'Root': Ref(1)}))
    for k in range(1, 1200):
        w.revision(Revision({3: (0, k)} if k < 1100 else {4: (0, k)}, trailer={'Root': Ref(1)}))
    doc = lib.open_doc(w.bytes())
    if doc.getobj(3) != 1099 or doc.getobj(4) != 1199:
        raise Violation('1200 revisions: %r %r' % (doc.getobj(3), doc.getobj(4)))


PROBES = [('deep-chain', deep)]
