"""Documents do not influence one another, in sequence or in threads."""
import os
import pickle
import struct
import sys
import threading
import time
from vlib.harness import Violation, tmpdir
from vlib.pdfgen import Doc, Name, Stream
from vlib import lib, refint
from vlib.docgen import rich
from vlib.proggen import tounicode, LETTERS
from pdfmajor.converters import convert_file

ID = 'C22'
LEVEL = 'exploration'
RULE = ('groups of documents that collide on purpose (same object numbers, font, map, colour-space and form names bound to different things) read one after '
        'another, interleaved page by page and concurrently by 2-4 threads under a 20 us switch interval with injected yields at call and return events of the code '
        'under test; every output compared with that of a fresh process that read nothing else; counted by distinct (documents, mode)')
ASSUMPTIONS = ['each thread has its own reader', 'the fresh process is forked from one that has only imported the library']
CASES = {'quick': 260, 'thorough': 6000}
MIN = {'sequential': 400, 'interleaved': 200, 'threaded': 450, 'siblings': 90, 'switches': 50000, '#switch_points': 5000, 'items': 3000, 'failing_documents': 25}
ALARM = 120

_z = None


class Zygote:
    """Forks a pristine child for every reference reading."""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                self.serve(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, 'wb'), os.fdopen(c, 'rb')

    @staticmethod
    def serve(rfd, wfd):
        r = os.fdopen(rfd, 'rb')
        while True:
            h = r.read(4)
            if len(h) < 4:
                return
            path = r.read(struct.unpack('>I', h)[0]).decode()
            pid = os.fork()
            if pid == 0:
                try:
                    out = pickle.dumps(view(path))
                    w = os.fdopen(wfd, 'wb', closefd=False)
                    w.write(struct.pack('>I', len(out)) + out)
                    w.flush()
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, path):
        p = path.encode()
        self.w.write(struct.pack('>I', len(p)) + p)
        self.w.flush()
        n = struct.unpack('>I', self.r.read(4))[0]
        return pickle.loads(self.r.read(n))


def setup():
    global _z
    _z = Zygote()


def failed(e):
    return ('failed', type(e).__name__, str(e)[:200])


def steps_of(path):
    """Generator over the pages of a document; its value is the view."""
    out = []
    try:
        for p in lib.PDFInterpreter(path):
            out.append((p.page_num, lib.r(p.width), lib.r(p.height), [lib.item_view(x) for x in p]))
            yield out
    except Exception as e:
        out.append(failed(e))
    yield out
    data = open(path, 'rb').read()
    try:
        doc = lib.open_doc(data)
        try:
            out.append([(l, t) for l, t, d, a, s in doc.get_outlines()])
        except lib.ex.PDFNoOutlines:
            pass
        yield out
        for x in doc.xrefs:
            for k in sorted(x.get_objids())[:60]:
                try:
                    out.append(lib.canon(doc.getobj(k)))
                except lib.ex.PDFObjectNotFound:
                    pass
    except Exception as e:
        out.append(failed(e))
    yield out
    t = '%s.%d.text' % (path, threading.get_ident())
    try:
        convert_file(path, t, out_type='text')
        out.append(open(t, 'rb').read())
    except Exception as e:
        out.append(failed(e))
    yield out


def view(path):
    v = None
    for v in steps_of(path):
        pass
    return v


def sibling(r, skel):
    """A document over a fixed skeleton: same numbers and names, other meanings."""
    doc = Doc()
    fonts = {}
    names = ('space', 'A', 'B', 'eacute', 'Euro', 'bullet', 'Zcaron', 'uni20AC', 'fi', 'a', 'b', 'alpha')
    for k in range(skel['fonts']):
        kind = skel['kinds'][k]
        if kind == 'type0':
            uni = {c: chr(r.choice((0x4e00, 0x3b1, 0x41)) + r.randrange(200)) for c in range(1, 60)}
            sub = {'Type': Name('Font'), 'Subtype': Name('CIDFontType2'), 'BaseFont': Name('Same'),
                   'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0},
                   'FontDescriptor': doc.add({'Type': Name('FontDescriptor'), 'FontName': Name('Same'), 'Flags': 4, 'Ascent': r.choice((700, 800)), 'Descent': -200,
                                              'FontBBox': [0, -200, 1000, 800]}), 'DW': r.choice((500, 1000)), 'W': [1, [r.randrange(1000) for _ in range(5)]]}
            spec = {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name('Same'), 'Encoding': Name(r.choice(('Identity-H', 'Identity-V'))),
                    'DescendantFonts': [doc.add(sub)], 'ToUnicode': doc.add(tounicode(uni.items()))}
        else:
            enc = {'Type': Name('Encoding'), 'BaseEncoding': Name(r.choice(('WinAnsiEncoding', 'MacRomanEncoding', 'StandardEncoding'))),
                   'Differences': [r.choice((32, 65, 97))] + [Name(r.choice(names)) for _ in range(r.randrange(1, 20))]}
            if r.random() < 0.2:
                enc['BaseEncoding'] = Name(r.choice(('PDFDocEncoding', 'Other', 'MacExpertEncoding')))
            elif r.random() < 0.15:
                del enc['BaseEncoding']
            if r.random() < 0.3:
                enc = Name(r.choice(('WinAnsiEncoding', 'MacRomanEncoding', 'StandardEncoding')))
            spec = {'Type': Name('Font'), 'Subtype': Name('TrueType' if kind == 'tt' else 'Type1'), 'BaseFont': Name('Helvetica' if kind == 'std' else 'Same'), 'Encoding': enc}
            if r.random() < 0.2:
                del spec['Encoding']
            if kind != 'std':
                spec.update(FirstChar=32, LastChar=130, Widths=[r.randrange(1000) for _ in range(99)],
                            FontDescriptor=doc.add({'Type': Name('FontDescriptor'), 'FontName': Name('Same'), 'Flags': 32, 'Ascent': r.choice((700, 800)), 'Descent': -200,
                                                    'FontBBox': [0, -200, 1000, r.choice((800, 900))]}))
            if r.random() < 0.3:
                spec['ToUnicode'] = doc.add(tounicode([(c, chr(r.choice((c, c + 0x100, 0x3b1)))) for c in r.sample(range(32, 127), 20)], 1))
        fonts['F%d' % k] = spec if skel['direct'][k] else doc.add(spec)
    cs = {'CS0': r.choice((Name('DeviceRGB'), Name('DeviceGray'), [Name('DeviceCMYK')])),
          'Cs1': [Name('ICCBased'), doc.add(Stream({'N': r.choice((1, 3, 4))}, b'x'))]}
    fm = doc.add(Stream({'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, 100, 100], 'Resources': {'Font': {'F0': fonts['F0']}}},
                        b'BT /F0 %d Tf 1 1 Td (form %d ABC) Tj ET' % (r.randrange(5, 20), r.randrange(10))))
    res = {'Font': fonts, 'ColorSpace': cs, 'XObject': {'Fm': fm}}
    if r.random() < 0.2:
        # a name the library also knows
        cs[r.choice(('DeviceRGB', 'DeviceGray', 'DeviceCMYK', 'G', 'Pattern'))] = r.choice((Name('DeviceCMYK'), Name('DeviceGray')))
    paint = b'/%s cs %s sc 0 0 9 9 re f' % (r.choice((b'DeviceRGB', b'DeviceGray', b'CS0', b'Pattern')), b' '.join([b'0.5'] * r.choice((0, 1, 3))))
    if r.random() < 0.35:
        # names without a meaning here
        d = r.choice((res, fonts, cs, res['XObject']))
        d.pop(r.choice(list(d)))
    for p in range(skel['pages']):
        c = [paint] if r.random() < 0.5 else []
        c += [b'/Cs1 cs ' + b' '.join([b'0.5'] * 1) + b' sc']
        for k in range(skel['fonts']):
            c.append(b'BT /F%d 10 Tf 1 0 0 1 %d %d Tm (%s) Tj ET' % (k, r.randrange(100), r.randrange(500), bytes(r.choice(LETTERS + b'   ') for _ in range(12))))
        c.append(b'/CS0 cs /Fm Do')
        doc.page(b'\n'.join(c), res)
    return doc.build(rng=r)


def spoil(r, pdf):
    """A document whose reading may fail half way."""
    b = bytearray(pdf)
    for _ in range(r.choice((1, 5, 30))):
        b[r.randrange(len(b))] = r.randrange(256)
    return bytes(b)


class Yields:
    """Random thread switches at events of the code under test."""

    def __init__(self, r, p, obs):
        self.p, self.obs, self.last = p, obs, None
        self.rand = r.random

    def __enter__(self):
        from vlib.harness import PKG
        m = sys.monitoring
        m.use_tool_id(3, 'yields')
        E = m.events
        pts = self.points = set()
        self.n = 0
        get = threading.get_ident
        p, rand, sleep = self.p, self.rand, time.sleep

        def hit(code, off, *a):
            if not code.co_filename.startswith(PKG):
                return m.DISABLE
            me = (get(), code.co_name, off)
            last = self.last
            if last is not None and last[0] != me[0]:
                self.n += 1
                pts.add((last[1:], me[1:]))
            self.last = me
            if rand() < p:
                sleep(0)
        for ev in (E.PY_START, E.PY_RETURN, E.PY_RESUME, E.LINE):
            m.register_callback(3, ev, hit)
        m.set_events(3, E.PY_START | E.PY_RETURN | E.PY_RESUME | (E.LINE if self.rand() < 0.15 else 0))
        self.si = sys.getswitchinterval()
        sys.setswitchinterval(2e-5)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(3, 0)
        for ev in (m.events.PY_START, m.events.PY_RETURN, m.events.PY_RESUME, m.events.LINE):
            m.register_callback(3, ev, None)
        m.free_tool_id(3)
        sys.setswitchinterval(self.si)
        self.obs.count('switches', self.n)
        for q in self.points:
            self.obs.distinct('switch_points', q)


def case(r, i, tier, obs):
    k = r.choice((2, 2, 3, 4))
    pdfs = []
    if r.random() < 0.6:
        obs.count('siblings')
        skel = {'fonts': r.choice((1, 2, 3)), 'pages': r.choice((1, 2, 3)), 'kinds': [r.choice(('type0', 'tt', 't1', 'std')) for _ in range(3)],
                'direct': [r.random() < 0.4 for _ in range(3)]}
        pdfs = [sibling(r, skel) for _ in range(k)]
    else:
        pdfs = [rich(r, npages=r.choice((1, 2, 3)), size=(3, 8), maxtext=4).pdf for _ in range(k)]
    if r.random() < 0.2:
        pdfs[0] = spoil(r, pdfs[0])
        obs.count('failing_documents')
    paths = []
    for n, d in enumerate(pdfs):
        p = os.path.join(tmpdir(), 'd%d.pdf' % n)
        open(p, 'wb').write(d)
        paths.append(p)
        obs.artifact('d%d.pdf' % n, d)
    ref = [_z.ask(p) for p in paths]

    def check(n, got, how):
        obs.count('items', sum(len(x[3]) for x in got if len(x) == 4 and isinstance(x[3], list)))
        if got != ref[n]:
            raise Violation('document %d of %d %s: %s' % (n, k, how, lib.diff(ref[n], got, 'view')))
    for n in r.sample(range(k), k):
        check(n, view(paths[n]), 'read after others')
        obs.count('sequential')
    if r.random() < 0.6:
        its = {n: steps_of(p) for n, p in enumerate(paths)}
        while its:
            n = r.choice(list(its))
            try:
                v = next(its[n])
                last = v
            except StopIteration:
                del its[n]
                continue
            its_v[n] = last
        for n in range(k):
            check(n, its_v[n], 'read interleaved with others')
            obs.count('interleaved')
        its_v.clear()
    got = {}
    jobs = [(t, n) for t, n in enumerate([r.randrange(k) for _ in range(r.choice((0, 1)))] + list(range(k)))]
    gate = threading.Barrier(len(jobs))

    def run(t, n):
        gate.wait()
        try:
            got[t] = view(paths[n])
        except BaseException as e:
            got[t] = e
    with Yields(r, r.choice((0.002, 0.01, 0.05)), obs):
        ts = [threading.Thread(target=run, args=j) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    for t, n in jobs:
        if isinstance(got[t], BaseException):
            raise got[t]
        check(n, got[t], 'read while %d others were' % (len(jobs) - 1))
        obs.count('threaded')
    obs.nontrivial(b''.join(pdfs))


its_v = {}
