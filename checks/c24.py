"""Reading a document touches nothing but what it was told to."""
import gc
import gzip
import os
import pickle
import shutil
import sys
import tempfile
import threading
import warnings
import zlib

from vlib import conv, harness, hostile, lib, crypt
from vlib.harness import Violation, PKG
from vlib.conv import convert_file
from vlib.docgen import rich
from vlib.pdfgen import Name, Stream
from pdfmajor.interpreter import PDFInterpreter, LTImage, LTXObject

ID = 'C24'
LEVEL = 'exploration'
RULE = ('documents whose names, strings, actions, file specifications, character maps and images aim at other files, processes and hosts (traps in a scratch folder), read, converted to all '
        'formats and exported, to the end, abandoned midway or failing (damaged bytes, missing password, undecodable text, unusable output), while the audit events of the interpreter, the file '
        'status calls and the open descriptors are watched; forbidden actions are recorded and stopped before they happen; non-trivial cases counted by distinct document and use')
ASSUMPTIONS = ['effects that bypass the interpreter (system calls of extension modules) are not seen', 'modules imported on demand count as the package\'s own files']
CASES = {'quick': 1600, 'thorough': 25000}
MIN = {'open_input': 1500, 'open_output': 400, 'maps_loaded': 100, 'status_calls': 400, 'failed': 300, 'abandoned': 100, 'exported': 200, 'events': 5000,
       'eps_images': 60, 'hostile_names': 1500, 'converted': 300}
ALARM = 40

# events without effect outside the process
HARMLESS = ('object.', 'code.', 'sys._getframe', 'builtins.id', 'marshal.', 'gc.', 'cpython.', 'function.', 'array.', 'sys.unraisablehook', 'sys.excepthook', 'time.', 'sys.monitoring', 'types.',
            'ctypes.create', 'ctypes.string', 'ctypes.addressof', 'ctypes.cdata')
ON = None
CMAPS = os.path.join(PKG, 'parser', 'cmapdb', 'cmap')
CODE = ('.py', '.pyc', '.so')
LIBS = tuple({os.path.realpath(p) for p in (sys.prefix, sys.base_prefix + '/lib', os.path.dirname(os.__file__), '/usr/lib/python3', PKG)})


class Watch:
    """What one use of the library did."""

    def __init__(self, source=None, target=None, images=None, cmaps=()):
        self.source = source and os.path.realpath(source)
        self.target = target and os.path.join(os.path.realpath(os.path.dirname(target)), os.path.basename(target))
        self.images = images and os.path.realpath(images)
        self.maps = [os.path.abspath(p) for p in cmaps] + [CMAPS, '/usr/share/pdfminer']
        self.bad = []
        self.n = {}
        self.off = False

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def is_code(self, p):
        return p.endswith(CODE) and os.path.realpath(p).startswith(LIBS)

    def open(self, path, mode, flags):
        if isinstance(path, int):
            return True
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        write = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) if isinstance(flags, int) else any(c in (mode or '') for c in 'wax+')
        full = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        if write:
            if full == self.target:
                self.count('open_output')
                return True
            if self.images and os.path.dirname(full) == self.images:
                self.count('open_image')
                return True
            return False
        if os.path.realpath(p) == self.source:
            self.count('open_input')
            return True
        if self.target and os.path.realpath(p) == os.path.realpath(self.target):
            return True
        if os.path.dirname(os.path.abspath(p)) in self.maps and '..' not in p.split('/'):
            self.count('maps_loaded')
            return True
        return self.is_code(p)

    def event(self, name, args):
        self.count('events')
        if name == 'open':
            return self.open(*args)
        if name == 'import':
            top = str(args[0]).split('.')[0]
            return top in sys.stdlib_module_names or top in sys.modules
        if name in ('exec', 'compile'):
            code = args[0] if name == 'exec' else args[1]
            f = getattr(code, 'co_filename', code)
            return isinstance(f, str) and f.endswith('.py') or isinstance(f, str) and f.startswith('<frozen')
        if name in ('os.listdir', 'os.scandir'):
            # module search
            p = str(args[0])
            return p in sys.path or os.path.realpath(p).startswith(LIBS)
        if name == 'os.mkdir':
            return self.images is not None and os.path.realpath(os.fspath(args[0])) == self.images
        return name.startswith(HARMLESS)

    def status(self, p):
        self.count('status_calls')
        if isinstance(p, int):
            return
        p = os.path.abspath(os.fsdecode(os.fspath(p)))
        near = [x for x in (self.source, self.target, self.images) if x]
        if any(p == x or x.startswith(p.rstrip('/') + '/') for x in near) or os.path.realpath(p) == self.source or p in self.maps or os.path.dirname(p) in self.maps:
            return
        if any(os.path.realpath(os.path.dirname(p)) == os.path.dirname(x) and os.path.basename(p) == os.path.basename(x) for x in near):
            return
        if self.images and os.path.dirname(p) == self.images:
            return
        if os.path.realpath(p).startswith(LIBS) and (p.endswith(CODE) or os.path.isdir(p)):
            return
        self.bad.append('looks for the file %r' % p)

    def __enter__(self):
        global ON
        gc.disable()
        self.fds = fds()
        self.cwd = os.getcwd()
        self.env = dict(os.environ)
        self.threads = threading.active_count()
        self.cw = warnings.catch_warnings(record=True)
        self.log = self.cw.__enter__()
        warnings.simplefilter('ignore')
        warnings.simplefilter('always', ResourceWarning)
        ON = self
        return self

    def __exit__(self, t, e, tb):
        global ON
        ON = None
        gc.enable()
        for w in self.log:
            if issubclass(w.category, ResourceWarning) and 'unclosed' in str(w.message):
                self.bad.append('left open: %s' % w.message)
        self.cw.__exit__(None, None, None)
        return False

    def settle(self, ctx, obs):
        """after the exception, if any, has been dropped"""
        new = fds() - self.fds
        if new:
            # a reading given up on an error is let go of with the traceback, which may be part of a cycle:
            # what the collector then closes in order was not left open
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter('always', ResourceWarning)
                gc.collect()
            self.bad += ['left open: %s' % x.message for x in log if 'unclosed' in str(x.message)]
            new = fds() - self.fds
        for f in new:
            try:
                self.bad.append('still open: %s' % os.readlink('/proc/self/fd/%s' % f))
            except OSError:
                pass
        if os.getcwd() != self.cwd:
            self.bad.append('changed folder')
        if dict(os.environ) != self.env:
            self.bad.append('changed the environment')
        if threading.active_count() != self.threads:
            self.bad.append('started a thread')
        for k, v in self.n.items():
            obs.count(k, v)
        if self.bad:
            raise Violation('%s: %s' % (ctx, '; '.join(self.bad[:4])))


def fds():
    return set(os.listdir('/proc/self/fd')[:-1])


def hook(name, args):
    w = ON
    if w is None or w.off or threading.get_ident() != MAIN:
        return
    w.off = True
    try:
        ok = w.event(name, args)
    except Exception as e:
        ok = False
        name = '%s (%r)' % (name, e)
    finally:
        w.off = False
    if not ok:
        w.bad.append('%s %r' % (name, tuple(str(a)[:200] for a in args[:3])))
        raise PermissionError('stopped by the monitor: %s' % name)


MAIN = None


def setup():
    global MAIN
    MAIN = threading.get_ident()
    warm()
    sys.addaudithook(hook)
    for n in ('stat', 'lstat', 'access'):
        real = getattr(os, n)

        def wrapped(path, *a, real=real, **kw):
            if ON is not None and not ON.off and threading.get_ident() == MAIN:
                ON.off = True
                try:
                    ON.status(path)
                finally:
                    ON.off = False
            return real(path, *a, **kw)
        setattr(os, n, wrapped)


def warm():
    """modules that are loaded on first use"""
    import random
    import PIL.Image
    PIL.Image.init()
    PIL.Image.preinit()
    r = random.Random(5)
    for alg in ('rc4', 'v4-aes', 'v5-aes'):
        out = rich(r, enc=crypt.Enc(r, alg, ''))
        for t in ('html', 'xml', 'json', 'yaml', 'text'):
            try:
                conv.convert(out.pdf, t)
            except Exception:
                pass


# -- documents ----------------------------------------------------------------
def aims(root, name):
    """strings that mean files, programs and hosts"""
    up = '../' * 3
    out = [root + '/trap', '../trap', 'sub/trap', './trap', 'trap', '../../etc/passwd', '/etc/passwd', '/etc/hostname', root + '/trap.pickle.gz', 'file://' + root + '/trap', '..', '.', '/',
           '', 'http://127.0.0.1:9/x', '\\\\host\\share', '~/.profile', '|touch ' + root + '/pwned', '$(touch %s/pwned)' % root, '`id`', '__import__("os").system("id")', 'os', 'subprocess',
           name + '\x00.png', 'con', '%2e%2e/trap', '..\\trap', up + 'trap', 'trap\x00', '\x00trap', root + '/cmaps/../trap', 'cmaps/../../trap', '/dev/stdin', '/proc/self/environ', '-', '*', 'a' * 300]
    return out


def evil_font(r, doc, name, aim, good):
    k = r.random()
    pick = lambda: Name(r.choice(aim).encode())
    if k < 0.6:
        enc = pick() if r.random() < 0.6 else Name(r.choice(good)) if r.random() < 0.6 else Name('Identity-H')
        reg, ord = r.choice(((r.choice(aim).encode(), r.choice(aim).encode()), (b'Adobe', r.choice(aim).encode()), (b'Adobe', b'Test'), (b'Adobe', b'Identity'), (b'..', b'/trap'), (b'', b'')))
        fd = {'Type': Name('FontDescriptor'), 'FontName': pick(), 'Flags': 4, 'Ascent': 800, 'Descent': -200, 'FontBBox': [0, 0, 1000, 1000], 'FontFamily': r.choice(aim).encode()}
        if r.random() < 0.3:
            fd[r.choice(('FontFile2', 'FontFile3', 'FontFile'))] = doc.add(Stream({'F': r.choice(aim).encode(), 'FFilter': Name('FlateDecode')}, b'data'))
        cid = {'Type': Name('Font'), 'Subtype': Name(r.choice(('CIDFontType2', 'CIDFontType0'))), 'BaseFont': pick(), 'CIDSystemInfo': {'Registry': reg, 'Ordering': ord, 'Supplement': 0},
               'FontDescriptor': doc.add(fd), 'DW': 500}
        if r.random() < 0.3:
            cid['CIDToGIDMap'] = pick()
        spec = {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': pick(), 'Encoding': enc, 'DescendantFonts': [doc.add(cid)]}
        if r.random() < 0.3:
            spec['Encoding'] = doc.add(Stream({'CMapName': pick(), 'UseCMap': pick(), 'Type': Name('CMap'), 'WMode': 0}, b'/%b usecmap begincmap endcmap' % pick().n.replace(b'\x00', b'')))
    else:
        spec = {'Type': Name('Font'), 'Subtype': Name(r.choice(('Type1', 'TrueType', 'MMType1'))), 'BaseFont': pick(), 'Encoding': r.choice((pick(), {'BaseEncoding': pick(), 'Differences': [65, pick(), pick()]})),
                'FirstChar': 32, 'Widths': [500] * 90}
    if r.random() < 0.5:
        other = r.choice(aim).encode().replace(b'\x00', b'')
        spec['ToUnicode'] = r.choice((pick(), doc.add(Stream({'UseCMap': pick()}, b'/%b usecmap\n1 beginbfchar <41> <0041> endbfchar' % other)),
                                      doc.add(Stream({}, b'(%b) run /%b findresource exec (%b) (r) file 1 beginbfchar <41> <0041> endbfchar' % (other, other, other)))))
    return spec


def document(r, root, name, obs, good):
    aim = aims(root, name)
    out = rich(r, npages=r.choice((1, 2, 3)), build=False, fontf=hostile.hostile_font, pats=[Name(a.encode()) for a in aim])
    doc = out.doc
    obs.count('hostile_names')
    evil = r.random() < 0.8
    if evil:
        fonts = {'E%d' % j: doc.add(evil_font(r, doc, 'E%d' % j, aim, good)) for j in range(r.choice((1, 2)))}
        xo = {}
        body = []
        for j in range(r.choice((0, 1, 3))):
            n = r.choice(aim) or 'x'
            eps = b'%!PS-Adobe-3.0 EPSF-3.0\n%%BoundingBox: 0 0 10 10\n%%EndComments\n(' + (root + '/pwned').encode() + b') (w) file closefile\nshowpage\n'
            data, d = r.choice((
                (eps, {'Filter': Name('DCTDecode')}), (eps, {'Filter': Name('DCTDecode')}), (b'\xff\xd8\xff\xe0 no image', {'Filter': Name('DCTDecode')}),
                (b'P6 10 10 255 ', {'Filter': Name('DCTDecode')}), (b'\x00' * 100, {}), (b'', {'F': r.choice(aim).encode(), 'FFilter': Name('FlateDecode')}),
                (zlib.compress(b'\x00' * 100), {'Filter': Name('FlateDecode'), 'DecodeParms': {'JBIG2Globals': r.choice(aim).encode()}}), (b'x' * 100, {'Filter': Name(r.choice(aim).encode())})))
            if data is eps:
                obs.count('eps_images')
            cs = r.choice(('DeviceCMYK', 'DeviceCMYK', 'DeviceGray', 'DeviceRGB'))
            xo[Name(n.encode())] = doc.add(Stream(dict(d, Type=Name('XObject'), Subtype=Name('Image'), Width=10, Height=10, BitsPerComponent=8, ColorSpace=Name(cs),
                                                       Name=Name(r.choice(aim).encode()), OPI={'2.0': {'F': r.choice(aim).encode()}}), data))
            body.append(b'/' + b''.join(b'#%02x' % c for c in n.encode()) + b' Do')
        ps = doc.add(Stream({'Type': Name('XObject'), 'Subtype': Name('PS')}, b'(%b/pwned) (w) file closefile' % root.encode()))
        xo['PS'] = ps
        content = b'BT ' + b' '.join(b'/%b 10 Tf (AB) Tj' % k.encode() for k in fonts) + b' ET ' if r.random() < 0.5 else b''
        content += b' '.join(body) + b' /PS Do'
        extra = {'Annots': [{'Type': Name('Annot'), 'Subtype': Name('Link'), 'Rect': [0, 0, 1, 1], 'A': action(r, aim)}], 'AA': {'O': action(r, aim)}}
        doc.page(r.choice((content, [Stream({'F': r.choice(aim).encode()}, b''), content])), {'Font': fonts, 'XObject': xo, 'ExtGState': {'G': {'Font': [Name(r.choice(aim).encode()), 1]}}}, **extra)
        doc.catalog['OpenAction'] = action(r, aim)
        doc.catalog['Dests'] = {Name(a.encode() or b'e'): [doc.kids[0], Name('Fit')] for a in r.sample(aim, 3)}
        doc.catalog['Names'] = {'EmbeddedFiles': {'Names': [r.choice(aim).encode(), {'Type': Name('Filespec'), 'F': r.choice(aim).encode(), 'EF': {'F': doc.add(Stream({}, b'#!/bin/sh\n'))}}]},
                                'JavaScript': {'Names': [b'x', {'S': Name('JavaScript'), 'JS': b'app.launchURL("http://127.0.0.1:9")'}]}}
    pw = None
    enc = None
    if r.random() < 0.2:
        pw = r.choice(('', 'pw', '/etc/passwd'))
        enc = crypt.Enc(r, r.choice(('rc4', 'v4-aes')), pw)
    pdf = doc.build(style=out.style, rng=r, enc=enc)
    return pdf, pw


def action(r, aim):
    s = r.choice(('URI', 'Launch', 'GoToR', 'ImportData', 'SubmitForm', 'JavaScript', 'Sound', 'Movie'))
    a = r.choice(aim).encode()
    return {'S': Name(s), 'URI': a, 'F': r.choice((a, {'Type': Name('Filespec'), 'F': a, 'UF': a, 'Unix': a})), 'D': [0, Name('Fit')], 'JS': a, 'Win': {'F': a, 'P': a}, 'NewWindow': True}


def damage(r, pdf):
    b = bytearray(pdf)
    k = r.random()
    if k < 0.4:
        return bytes(b[:r.randrange(len(b))])
    for _ in range(r.choice((1, 3, 20))):
        b[r.randrange(len(b))] = r.randrange(256)
    return bytes(b)


def traps(root):
    class Evil:
        def __reduce__(self):
            return (os.mkdir, (root + '/pwned',))
    os.mkdir(root + '/cmaps')
    os.mkdir(root + '/cmaps/sub')
    os.mkdir(root + '/cwd')
    os.mkdir(root + '/cwd/sub')
    blob = gzip.compress(pickle.dumps(Evil()))
    for p in ('trap', 'cmaps/sub/trap', 'cwd/trap', 'cwd/sub/trap', 'to-unicode-trap'):
        with open('%s/%s.pickle.gz' % (root, p), 'wb') as f:
            f.write(blob)
    with open(root + '/trap', 'wb') as f:
        f.write(b'trap')


def case(r, i, tier, obs):
    root = tempfile.mkdtemp(prefix='c24', dir=harness.tmpdir())
    here, env = os.getcwd(), os.environ.get('CMAP_PATH')
    try:
        traps(root)
        good = ['Good%d-H' % i, 'Good%d-V' % i]
        for n in good:
            with gzip.open('%s/cmaps/%s.pickle.gz' % (root, n), 'wb') as f:
                f.write(pickle.dumps({'IS_VERTICAL': n.endswith('V'), 'CODE2CID': {0: {k: k for k in range(256)}}}))
        os.environ['CMAP_PATH'] = r.choice((root + '/cmaps/', root + '/cmaps'))
        os.chdir(root + '/cwd')
        src = root + '/' + r.choice(('in.pdf', 'trap.pdf', 'a b.pdf'))
        pdf, pw = document(r, root, os.path.basename(src), obs, good)
        obs.artifact('in.pdf', pdf)
        harm = r.random()
        if harm < 0.2:
            pdf = damage(r, pdf)
        with open(src, 'wb') as f:
            f.write(pdf)
        opts = {}
        if pw and r.random() < 0.8:
            opts['password'] = pw
        if r.random() < 0.6:
            opts['ignore_bad_chars'] = True
        for _ in range(2):
            use(r, root, src, pdf, opts, obs)
        if os.path.exists(root + '/pwned'):
            raise Violation('a trap went off')
        with open(src, 'rb') as f:
            if f.read() != pdf:
                raise Violation('the input was changed')
        obs.nontrivial(pdf)
    finally:
        os.chdir(here)
        os.environ.pop('CMAP_PATH', None)
        if env is not None:
            os.environ['CMAP_PATH'] = env
        shutil.rmtree(root)


def attempt(f, obs):
    try:
        f()
        return True
    except Violation:
        raise
    except Exception as e:
        if 'CMapNotFound' in type(e).__name__:
            obs.count('maps_refused')
        obs.count('failed')
        return False


def images(item):
    if isinstance(item, LTImage):
        yield item
    elif isinstance(item, LTXObject):
        for c in item:
            yield from images(c)


def use(r, root, src, pdf, opts, obs):
    what = r.choice(('convert', 'convert', 'convert', 'convert', 'interpret', 'abandon', 'export', 'export', 'open', 'badout'))
    maps = [root + '/cmaps']
    tmp = root + '/out'
    shutil.rmtree(tmp, ignore_errors=True)
    os.mkdir(tmp)
    if what in ('convert', 'badout'):
        t = r.choice(('html', 'xml', 'json', 'yaml', 'text'))
        dst = r.choice((tmp + '/res.' + t, '../out/res.' + t))
        kw = dict(opts)
        if what == 'badout':
            if r.random() < 0.5:
                dst = root + '/absent/res.' + t
            else:
                kw['codec'] = r.choice(('ascii', 'no-such-codec'))
        folder = None
        if r.random() < 0.3:
            folder = root + '/images'
            kw['image_folder_path'] = folder
            kw['dont_export_images'] = r.random() < 0.5
        if r.random() < 0.2:
            kw['caching'] = False
        w = Watch(src, dst, folder, maps)
        with w:
            ok = attempt(lambda: convert_file(src, dst, out_type=t, **kw), obs)
        w.settle('%s to %s' % (what, t), obs)
        if ok:
            obs.count('converted')
        left = set(os.listdir(tmp)) - {'res.' + t}
        if left:
            raise Violation('conversion to %s left %r' % (t, left))
    elif what == 'interpret':
        def f():
            for p in PDFInterpreter(src, **opts):
                for x in p:
                    lib.text_of(x)
        w = Watch(src, cmaps=maps)
        with w:
            attempt(f, obs)
        w.settle(what, obs)
    elif what == 'abandon':
        def f():
            it = iter(PDFInterpreter(src, **opts))
            p = next(it)
            for x in p:
                break
            obs.count('abandoned')
        w = Watch(src, cmaps=maps)
        with w:
            attempt(f, obs)
        w.settle(what, obs)
    elif what == 'export':
        folder = root + '/images'
        shutil.rmtree(folder, ignore_errors=True)
        os.mkdir(folder)

        def f():
            for p in PDFInterpreter(src, **opts):
                for x in p:
                    for im in images(x):
                        if attempt(lambda: im.save_image(folder), obs):
                            obs.count('exported')
        w = Watch(src, images=folder, cmaps=maps)
        with w:
            attempt(f, obs)
        w.settle(what, obs)
    else:
        def f():
            doc = lib.open_doc(pdf, password=opts.get('password') or '')
            for x in doc.xrefs:
                for n in list(x.get_objids()):
                    try:
                        o = doc.getobj(n)
                        if hasattr(o, 'get_data'):
                            o.get_data()
                    except Exception:
                        pass
            try:
                list(doc.get_outlines())
            except Exception:
                pass
        w = Watch(None, cmaps=maps)
        with w:
            attempt(f, obs)
        w.settle(what, obs)
