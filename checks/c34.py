"""Strict reading refuses, it does not read differently."""
import contextlib
import importlib
import random
import re

from vlib import conv, faulty, harness, lib
from vlib.harness import Violation
from pdfmajor.execptions import PDFMajorException
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.utils import settings
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont.fonts import PDFCIDFont

ID = 'C34'
LEVEL = 'exploration'
RULE = ('complete documents (all font kinds, character maps, forms, images, filters, outlines, name trees, page trees, encryption, all section layouts), half of them well-formed and half '
        'with the faults of C31, read twice, leniently and with settings.STRICT: objects, stream data, outlines, destinations, pages, items and conversions compared part by part (values moved to objects of their own in some); cases of 19 other properties run with the setting on; a part of a '
        'well-formed document has to be the same, what leaves the library for a faulty one a documented error; non-trivial cases counted by distinct document')
ASSUMPTIONS = ['the setting is changed between readings, not during one; the default of a font constructor that is fixed at import is set along with it in half of the cases']
CASES = {'quick': 3200, 'thorough': 60000}
MIN = {'well_formed': 1000, 'faulty': 1000, 'parts': 60000, 'same': 40000, 'refused': 2000, 'both_refuse': 1000, 'faulty_parts_same': 10000, '#refused_by': 10, 'items': 3000, 'stream_data': 7000, 'conversions': 200, 'others_same': 500, '#others': 19, 'moved': 10000}
# generated names of images are counted per process
NAME = re.compile(rb'(?<=src)(["=: ]+)[^",>]*')
FORMATS = ('json', 'xml', 'yaml', 'html', 'text')


@contextlib.contextmanager
def strict(early):
    """As after setting the switch; early: before anything was imported."""
    old = PDFCIDFont.__init__.__defaults__
    settings.STRICT = True
    if early and old:
        PDFCIDFont.__init__.__defaults__ = tuple(True if d is False else d for d in old)
    try:
        yield
    finally:
        settings.STRICT = False
        PDFCIDFont.__init__.__defaults__ = old


def view(pdf, pw, fmt, ignore, caching):
    """{part: value}; a part that failed is a Refusal."""
    out = {}

    def part(name, f):
        try:
            out[name] = f()
        except PDFMajorException as e:
            out[name] = Refusal(e)
        return out[name]
    d = part('document', lambda: lib.open_doc(pdf, pw, caching=caching))
    if not isinstance(d, Refusal):
        out['document'] = sorted(lib.canon(k) for k in d.catalog)
        ids = part('objects', lambda: sorted({n for x in d.xrefs for n in x.get_objids()}))
        for n in [] if isinstance(ids, Refusal) else ids[:300]:
            part('object %d' % n, lambda: lib.canon(d.getobj(n)))
            if not isinstance(out['object %d' % n], Refusal):
                o = d.getobj(n)
                if isinstance(o, PDFStream):
                    part('stream %d' % n, o.get_data)
        part('outlines', lambda: [(lv, t, lib.canon(de), lib.canon(a)) for lv, t, de, a, se in d.get_outlines()])
        for n in (b'n0', b'n1', b'n3', 'd0', 'Old'):
            part('dest %r' % (n,), lambda: lib.canon(d.get_dest(n)))
    ps = part('pages', lambda: list(lib.interp(pdf, password=pw, ignore_bad_chars=ignore, check_extractable=False, caching=caching)))
    if not isinstance(ps, Refusal):
        out['pages'] = len(ps)
        for k, p in enumerate(ps):
            part('page %d' % k, lambda: [lib.item_view(i) for i in p])
            part('page %d box' % k, lambda: (lib.r(p.width), lib.r(p.height)))
    if fmt:
        part('conversion to ' + fmt, lambda: NAME.sub(rb'\1', conv.convert(pdf, fmt, password=pw, ignore_bad_chars=ignore, check_extractable=False, caching=caching)).decode('latin-1'))
    return out


class Refusal:
    def __init__(self, e):
        self.kind = type(e).__name__
        self.where = harness.short_tb(e)


OTHERS = ('c01', 'c02', 'c03', 'c05', 'c06', 'c07', 'c08', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c18', 'c19', 'c20', 'c23', 'c29')


def other(r, i, tier, obs):
    """A case of another property, read strictly; every one of their documents is well-formed."""
    name = OTHERS[i // 5 % len(OTHERS)]
    mod = importlib.import_module('checks.' + name)
    if name not in _ready:
        _ready.add(name)
        if hasattr(mod, 'setup'):
            mod.setup()
    seed, n, early = r.random(), r.randrange(1 << 20), r.random() < 0.5

    def run():
        o = harness.Obs()
        try:
            mod.case(random.Random(seed), n, tier, o)
        except Violation as e:
            return o, str(e), e.key
        except Exception as e:
            return o, harness.short_tb(e), None
        return o, None, None
    o, a, key = run()
    with strict(early):
        o, b, key2 = run()
    obs.count('parts')
    if a == b:
        obs.count('others_same')
        obs.distinct('others', mod.ID)
        obs.nontrivial((name, seed))
        return
    obs.art.update(o.art)
    raise Violation('%s, leniently: %s; strictly: %s' % (mod.ID, a or 'holds', b or 'holds'))


_ready = set()


def case(r, i, tier, obs):
    if i % 5 == 4:
        other(r, i, tier, obs)
        return
    good = i % 2 == 0
    o = harness.Obs()
    # values in objects of their own are read over and over when nothing is cached
    caching = r.random() < 0.8
    pdf, pw, kind = faulty.make(r, o, kind='none' if good else None, turn=i // 2, move=0.4 if good and caching else 0)
    obs.count('moved', o.counts.get('moved', 0))
    obs.artifact('pdf', pdf)
    obs.count('well_formed' if good else 'faulty')
    fmt = r.choice(FORMATS) if r.random() < 0.25 else None
    ignore = r.random() < 0.7
    a = view(pdf, pw, fmt, ignore, caching)
    early = r.random() < 0.5
    try:
        with strict(early):
            b = view(pdf, pw, fmt, ignore, caching)
    except Exception as e:
        raise Violation('read strictly (%s fault): %s left the library' % (kind, harness.short_tb(e)))
    for n in a:
        obs.count('parts')
        x, y = a[n], b.get(n)
        if not good:
            # what a refusal leads to (reading by scanning, another font) is not fixed
            if isinstance(y, Refusal):
                obs.count('refused')
                obs.distinct('refused_by', y.kind)
            else:
                obs.count('faulty_parts_same', x == y)
            continue
        if isinstance(x, Refusal):
            # no outlines, unknown destination, unsupported filter
            if not isinstance(y, Refusal) or y.kind != x.kind:
                raise Violation('%s is refused leniently (%s) but not so strictly' % (n, x.where))
            obs.count('both_refuse')
            continue
        if isinstance(y, Refusal) or n not in b:
            w = y if y is not None else next(v for v in b.values() if isinstance(v, Refusal))
            raise Violation('%s of a well-formed document is refused strictly: %s' % (n, w.where))
        if x != y:
            raise Violation('%s differs when read strictly: %s' % (n, lib.diff(x, y)))
        obs.count('same')
        if n.startswith('stream '):
            obs.count('stream_data')
        elif n.startswith('conv'):
            obs.count('conversions')
        elif n.startswith('page ') and isinstance(x, list):
            obs.count('items', len(x))
    obs.nontrivial(pdf)
