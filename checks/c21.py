"""Reading again gives the same result, in any order and in every mode."""
import glob
import os
from vlib.harness import Violation, REPO, write_tmp
from vlib import lib
from vlib.docgen import rich

ID = 'C21'
LEVEL = 'exploration'
RULE = ('random access histories (full, partial, abandoned, repeated and interleaved passes over documents, pages and their items; pages collected before any '
        'is read, re-read later; preloading, caching on and off, page selections) over generated and sample files; every observed prefix or whole compared '
        'with one straight pass; the same for object, outline and destination lookups; counted by distinct (document, history)')
ASSUMPTIONS = ['images are compared by their data, not by their generated names']
CASES = {'quick': 700, 'thorough': 15000}
MIN = {'passes': 3500, 'partial_passes': 2500, 'page_reads': 2500, 'page_rereads': 1200, 'partial_page_reads': 2000, 'interleaved': 3000, 'preloaded': 700,
       'uncached': 900, 'collected': 1500, 'lookups': 20000, 'items': 20000, 'samples': 12, 'many_pages': 4}

SMALL = []


def setup():
    for p in sorted(glob.glob(os.path.join(REPO, 'tests/samples/pdf/*.pdf'))):
        if os.path.getsize(p) < 100000 and 'bad' not in p:
            SMALL.append(p)


def head(p):
    return (p.page_num, lib.r(p.width), lib.r(p.height))


def straight(path, **kw):
    return [(head(p), [lib.item_view(x) for x in p]) for p in lib.PDFInterpreter(path, **kw)]


class Reader:
    """One open pass over one page."""

    def __init__(self, page, want):
        self.page, self.want, self.it, self.n = page, want, iter(page), 0

    def step(self, k, obs):
        for _ in range(k):
            try:
                x = next(self.it)
            except StopIteration:
                if self.n != len(self.want):
                    raise Violation('page %d gave %d items instead of %d' % (self.page.page_num, self.n, len(self.want)))
                return False
            v = lib.item_view(x)
            obs.count('items')
            if self.n >= len(self.want) or v != self.want[self.n]:
                w = self.want[self.n] if self.n < len(self.want) else 'nothing'
                raise Violation('page %d item %d: expected %s got %s (%s)' % (
                    self.page.page_num, self.n, lib.short(w), lib.short(v), lib.diff(w, v) if w != 'nothing' else ''))
            self.n += 1
        return True


def history(r, path, obs, password, lengths):
    sel = {}
    ref_all = straight(path, password=password)
    if r.random() < 0.2:
        sel = {'pagenos': sorted(r.sample(range(len(ref_all)), r.randrange(1, len(ref_all) + 1)))}
    elif r.random() < 0.2:
        sel = {'maxpages': r.randrange(1, len(ref_all) + 1)}
    ref = straight(path, password=password, **sel) if sel else ref_all
    log = []
    docs = []
    passes = []
    readers = []
    held = []
    seen = {}

    def check_head(k, p):
        if head(p) != ref[k][0]:
            raise Violation('page %d: expected %s got %s' % (k, ref[k][0], head(p)))
    try:
        for _ in range(r.choice(lengths)):
            op = r.choice('nnppppprrrrrccqh')
            if op == 'n' or not docs:
                kw = dict(preload=r.random() < 0.3, caching=r.random() < 0.6)
                log.append('open %r' % kw)
                obs.count('preloaded', kw['preload'])
                obs.count('uncached', not kw['caching'])
                docs.append(lib.PDFInterpreter(path, password=password, **sel, **kw))
                if len(docs) > 3:
                    docs.pop(0)
            elif op == 'p':
                d = r.choice(docs)
                if passes and r.random() < 0.4:
                    k = r.randrange(len(passes))
                else:
                    passes.append([iter(d), 0])
                    obs.count('passes')
                    k = len(passes) - 1
                ps = passes[k]
                if len(passes) > 1:
                    obs.count('interleaved')
                n = r.choice((1, 1, 2, 100))
                log.append('pass %d: %d pages' % (k, n))
                for _ in range(n):
                    try:
                        p = next(ps[0])
                    except StopIteration:
                        if ps[1] != len(ref):
                            raise Violation('a pass gave %d pages instead of %d' % (ps[1], len(ref)))
                        passes.remove(ps)
                        break
                    if ps[1] >= len(ref):
                        raise Violation('a pass gave more than %d pages' % len(ref))
                    check_head(ps[1], p)
                    held.append((p, ps[1]))
                    ps[1] += 1
                else:
                    obs.count('partial_passes')
                    if r.random() < 0.3:
                        log.append('abandon pass %d' % k)
                        if r.random() < 0.5:
                            ps[0].close()
                        passes.remove(ps)
            elif op == 'c':
                log.append('collect')
                got = list(r.choice(docs))
                obs.count('collected')
                if len(got) != len(ref):
                    raise Violation('collecting gave %d pages instead of %d' % (len(got), len(ref)))
                for k, p in enumerate(got):
                    check_head(k, p)
                    held.append((p, k))
            elif op in 'rq' and held:
                j = r.randrange(len(held))
                p, k = held[j]
                if op == 'q' or r.random() < 0.3:
                    log.append('start page %d' % k)
                    readers.append(Reader(p, ref[k][1]))
                    readers[-1].step(r.choice((0, 1, 3)), obs)
                    obs.count('partial_page_reads')
                else:
                    log.append('read page %d' % k)
                    rd = Reader(p, ref[k][1])
                    while rd.step(1000, obs):
                        pass
                    obs.count('page_reads')
                    if id(p) in seen:
                        obs.count('page_rereads')
                    seen[id(p)] = p
                if len(held) > 12:
                    del held[r.randrange(len(held))]
            elif op == 'h' and readers:
                rd = readers.pop(r.randrange(len(readers)))
                log.append('go on with page %d' % rd.page.page_num)
                if rd.step(r.choice((1, 2, 1000)), obs) and r.random() < 0.5:
                    readers.append(rd)
                obs.count('interleaved')
    except Violation as e:
        raise Violation('%s after: %s' % (e, '; '.join(log)))
    except Exception as e:
        from vlib.harness import short_tb, from_pkg
        if not from_pkg(e.__traceback__):
            raise
        raise Violation('%s after: %s' % (short_tb(e), '; '.join(log)))
    obs.nontrivial(path + '|'.join(log))


def lookups(r, data, obs, password, wanted):
    """Objects, outlines and destinations in any order, cached or not, give the same."""
    first = lib.open_doc(data, password)
    ids = sorted(set(o for x in first.xrefs for o in x.get_objids()))
    ref = {}

    def get(doc, k):
        try:
            return lib.canon(doc.getobj(k))
        except lib.ex.PDFObjectNotFound:
            return 'absent'
    for k in ids[:120]:
        ref[k] = get(first, k)

    def outl(doc):
        try:
            return [(l, t, lib.canon(d), lib.canon(a)) for l, t, d, a, _ in doc.get_outlines()]
        except lib.ex.PDFNoOutlines:
            return None
    ro = outl(lib.open_doc(data, password))
    rp = [(p.pageid, lib.canon(p.attrs)) for p in lib.PDFPage.create_pages(lib.open_doc(data, password))]
    docs = [lib.open_doc(data, password, caching=c) for c in (True, False)] + [first]
    for _ in range(r.choice((10, 40, 80))):
        doc = r.choice(docs)
        op = r.random()
        if op < 0.8 and ref:
            k = r.choice(list(ref))
            g = get(doc, k)
            obs.count('lookups')
            if g != ref[k]:
                raise Violation('object %d, caching=%s, looked up again: %s' % (k, doc.caching, lib.diff(ref[k], g)))
        elif op < 0.9:
            if outl(doc) != ro:
                raise Violation('outlines differ when read again, caching=%s' % doc.caching)
            obs.count('lookups')
        else:
            g = [(p.pageid, lib.canon(p.attrs)) for p in lib.PDFPage.create_pages(doc)]
            if g != rp:
                raise Violation('page list differs when read again, caching=%s' % doc.caching)
            obs.count('lookups')


def case(r, i, tier, obs):
    password = ''
    many = False
    if SMALL and i % 50 == 0:
        path = SMALL[(i // 50) % len(SMALL)]
        obs.count('samples')
        data = open(path, 'rb').read()
    else:
        many = r.random() < 0.02
        rd = rich(r, size=(5, 12, 25), maxtext=4) if not many else rich(r, npages=r.choice((65, 66)), size=(0, 1, 1), maxtext=2, forms=False, images=False)
        obs.count('many_pages', many)
        data = rd.pdf
        path = write_tmp(data)
        obs.artifact('in.pdf', data)
    history(r, path, obs, password, (7,) if many else (10, 25, 60))
    if len(data) < 100000 and not many:
        lookups(r, data, obs, password, None)
    obs.sample({'bytes': len(data)})
