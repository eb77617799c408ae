"""Independent reference interpreter for page content.

Programs are lists of (operator, [operands]); they are written out by
`tokens`/`content` and executed by `Ref`, which knows nothing of the code under
test and follows ISO 32000-1 clauses 8 and 9.
"""
import zlib
from .pdfgen import Name, Style, PLAIN, Stream, ser

IDENT = (1, 0, 0, 1, 0, 0)


def mul(m, n):
    """Row-vector convention: first m, then n."""
    return (m[0] * n[0] + m[1] * n[2], m[0] * n[1] + m[1] * n[3],
            m[2] * n[0] + m[3] * n[2], m[2] * n[1] + m[3] * n[3],
            m[4] * n[0] + m[5] * n[2] + n[4], m[4] * n[1] + m[5] * n[3] + n[5])


def pt(m, x, y):
    return (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5])


def box(pts):
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    return (min(xs), min(ys), max(xs), max(ys))


def kinds(shape, ends):
    """Kinds a path may be reported as; more than one only where rounding decides."""
    tol = 1e-9 * max(max(abs(x), abs(y)) for x, y in ends)

    def same(*pairs):
        """True, False or None (equal up to rounding)"""
        if all(a == b for a, b in pairs):
            return True
        return None if all(abs(a - b) <= tol for a, b in pairs) else False
    if shape == 'ml':
        (a, b) = ends
        v, h = same((a[0], b[0])), same((a[1], b[1]))
        if v is True:
            return ('v',) if h is not None else ('v', 'h')
        return (('v',) if v is None else ()) + (('h',) if h is not False else ()) + (() if h is True else ('line',))
    if shape == 'mlllh':
        (a, b, c, d) = ends
        r = (same((a[0], b[0]), (b[1], c[1]), (c[0], d[0]), (d[1], a[1])), same((a[1], b[1]), (b[0], c[0]), (c[1], d[1]), (d[0], a[0])))
        return ('rect',) if True in r else ('rect', 'curve') if None in r else ('curve',)
    return ('curve',)


# -- fonts ---------------------------------------------------------------------
class Font:
    """width in glyph units per code; hs/vs scale glyph units to text units."""

    def __init__(self, name, spec, widths, missing, desc, height, uni, nbytes=1, hs=.001, vs=.001, fontname=None):
        self.name, self.spec = name, spec
        self.widths, self.missing = widths, missing
        self.desc, self.height = desc, height
        self.uni = uni
        self.nbytes = nbytes
        self.hs, self.vs = hs, vs
        self.fontname = fontname

        self.vert = None        # ({code: (w1, vx, vy)}, (vy, w1) default, box width)

    def codes(self, s):
        n = self.nbytes
        return [int.from_bytes(s[i:i + n], 'big') for i in range(0, len(s) - len(s) % n, n)]

    def w(self, c):
        return self.widths.get(c, self.missing) * self.hs


class GS:
    __slots__ = ('ctm', 'lw', 'sc', 'nc', 'scs', 'ncs', 'font', 'size', 'tc', 'tw', 'tz', 'tl', 'ts')

    def copy(self):
        g = GS()
        for k in GS.__slots__:
            setattr(g, k, getattr(self, k))
        return g


def start_state(ctm=IDENT, lw=0):
    g = GS()
    g.ctm = ctm
    g.lw = lw
    g.sc = g.nc = (None, ())
    g.scs = g.ncs = ('DeviceGray', 1)
    g.font, g.size = None, 0
    g.tc = g.tw = g.tl = g.ts = 0
    g.tz = 100
    return g


class Res:
    """Model resources: fonts {name: Font}, spaces {name: (family, n)}, xobjs {name: Form|Image}."""

    def __init__(self, fonts=None, spaces=None, xobjs=None):
        self.fonts = fonts or {}
        self.spaces = spaces or {}
        self.xobjs = xobjs or {}


class Form:
    def __init__(self, prog, bbox, matrix=None, res=None):
        self.prog, self.bbox, self.matrix, self.res = prog, bbox, matrix, res


class Image:
    def __init__(self, w, h, bpc, cs, data, mask=False):
        self.w, self.h, self.bpc, self.cs, self.data, self.mask = w, h, bpc, cs, data, mask


FAMILIES = {'DeviceGray': 1, 'DeviceRGB': 3, 'DeviceCMYK': 4, 'Pattern': 1}


class Machine:
    def __init__(self, res, ctm=IDENT, lw=0, q_leaks=False):
        self.res = res
        self.g = start_state(ctm, lw)
        self.stack = []
        self.out = []
        self.path = []
        self.q_leaks = q_leaks
        self.tm = self.tlm = IDENT
        self.block = None
        self.events = 0
        self.active = ()        # forms being painted
        self.skipped = 0

    def run(self, prog):
        for op, args in prog:
            getattr(self, OPS[op])(*args)
            self.events += 1
        return self.out

    # state
    def q(self):
        self.stack.append(self.g.copy())

    def Q(self):
        if self.stack:
            new = self.stack.pop()
            if self.q_leaks:
                for k in ('lw', 'sc', 'nc', 'scs', 'ncs'):
                    setattr(new, k, getattr(self.g, k))
            self.g = new

    def cm(self, *m):
        self.g.ctm = mul(m, self.g.ctm)

    def w_(self, v):
        self.g.lw = v

    def nop(self, *a):
        pass

    # colour
    def space(self, name):
        n = name.n.decode()
        if n in self.res.spaces:
            return self.res.spaces[n]
        return (n, FAMILIES[n])

    def CS(self, n):
        self.g.scs = self.space(n)
        self.g.sc = ('?',) + self.g.sc[1:]

    def cs(self, n):
        self.g.ncs = self.space(n)
        self.g.nc = ('?',) + self.g.nc[1:]

    @staticmethod
    def val(v):
        return v.n.decode() if isinstance(v, Name) else v

    def SC(self, *v):
        self.g.sc = (self.g.scs[0], tuple(self.val(x) for x in v))

    def sc(self, *v):
        self.g.nc = (self.g.ncs[0], tuple(self.val(x) for x in v))

    def G(self, v):
        self.g.scs = ('DeviceGray', 1)
        self.g.sc = ('DeviceGray', (v,))

    def g_(self, v):
        self.g.ncs = ('DeviceGray', 1)
        self.g.nc = ('DeviceGray', (v,))

    def RG(self, *v):
        self.g.scs = ('DeviceRGB', 3)
        self.g.sc = ('DeviceRGB', tuple(round(x * 255) for x in v))

    def rg(self, *v):
        self.g.ncs = ('DeviceRGB', 3)
        self.g.nc = ('DeviceRGB', tuple(round(x * 255) for x in v))

    def K(self, *v):
        self.g.scs = ('DeviceCMYK', 4)
        self.g.sc = ('DeviceCMYK', tuple(v))

    def k(self, *v):
        self.g.ncs = ('DeviceCMYK', 4)
        self.g.nc = ('DeviceCMYK', tuple(v))

    # paths
    def m(self, *a):
        self.path.append(('m', a))

    def l(self, *a):
        self.path.append(('l', a))

    def c(self, *a):
        self.path.append(('c', a))

    def v(self, *a):
        self.path.append(('v', a))

    def y(self, *a):
        self.path.append(('y', a))

    def h(self):
        if self.path and self.path[-1][0] != 'h':
            self.path.append(('h', ()))

    def re(self, x, y, w, h):
        self.path += [('m', (x, y)), ('l', (x + w, y)), ('l', (x + w, y + h)), ('l', (x, y + h)), ('h', ())]

    def paint(self, eo):
        p = self.path
        self.path = []
        if not p:
            return
        ctm = self.g.ctm
        ends, hull = [], []
        for op, a in p:
            ps = [pt(ctm, a[i], a[i + 1]) for i in range(0, len(a), 2)]
            if ps:
                ends.append(ps[-1])
                hull += ps
        shape = ''.join(op for op, a in p)
        self.out.append({'t': 'path', 'kinds': kinds(shape, ends), 'inner': box(ends), 'outer': box(hull), 'eo': eo, 'lw': self.g.lw,
                         'sc': self.g.sc, 'nc': self.g.nc,
                         'segs': [(op, [(a[i], a[i + 1]) for i in range(0, len(a), 2)]) for op, a in p]})

    def paint_n(self):
        self.paint(False)

    def paint_eo(self):
        self.paint(True)

    def close_n(self):
        self.h()
        self.paint(False)

    def close_eo(self):
        self.h()
        self.paint(True)

    def n(self):
        self.path = []

    # text
    def BT(self):
        self.tm = self.tlm = IDENT
        self.block = {'t': 'text', 'shows': []}

    def ET(self):
        if self.block['shows']:
            self.out.append(self.block)
        self.block = None

    def Tc(self, v):
        self.g.tc = v

    def Tw(self, v):
        self.g.tw = v

    def Tz(self, v):
        self.g.tz = v

    def TL(self, v):
        self.g.tl = v

    def Ts(self, v):
        self.g.ts = v

    def Tf(self, n, s):
        self.g.font = self.res.fonts[n.n.decode()]
        self.g.size = s

    def Td(self, x, y):
        self.tlm = mul((1, 0, 0, 1, x, y), self.tlm)
        self.tm = self.tlm

    def TD(self, x, y):
        self.g.tl = -y
        self.Td(x, y)

    def Tm(self, *m):
        self.tm = self.tlm = tuple(m)

    def Tstar(self):
        self.Td(0, -self.g.tl)

    def TJ(self, seq):
        g = self.g
        f = g.font
        th = g.tz / 100.0
        chars = []
        for x in seq:
            if isinstance(x, (int, float)):
                if f.vert:
                    self.tm = mul((1, 0, 0, 1, 0, -x / 1000.0 * g.size), self.tm)
                    continue
                self.tm = mul((1, 0, 0, 1, -x / 1000.0 * g.size * th, 0), self.tm)
                continue
            for c in f.codes(x):
                m = mul(self.tm, g.ctm)
                if f.vert:
                    ws, (dvy, dw1), bw = f.vert
                    w1, vx, vy = ws.get(c, (dw1, bw / 2.0, dvy))
                    x0 = -vx * .001 * g.size * th
                    top = (1000 - vy) * .001 * g.size + g.ts
                    adv = w1 * .001 * g.size
                    chars.append((f.uni(c), box([pt(m, a, b) for a in (x0, x0 + bw * .001 * g.size * th) for b in (top, top + adv)])))
                    self.tm = mul((1, 0, 0, 1, 0, adv + g.tc), self.tm)
                    continue
                w = f.w(c)
                y0 = f.desc * f.vs * g.size + g.ts
                y1 = y0 + f.height * f.vs * g.size
                x1 = w * g.size * th
                chars.append((f.uni(c), box([pt(m, a, b) for a in (0, x1) for b in (y0, y1)])))
                tx = (w * g.size + g.tc + (g.tw if c == 32 and f.nbytes == 1 else 0)) * th
                self.tm = mul((1, 0, 0, 1, tx, 0), self.tm)
        if chars:
            self.block['shows'].append({'font': f.fontname, 'nc': g.nc, 'chars': chars, 'vert': bool(f.vert)})

    def Tj(self, s):
        self.TJ([s])

    def quote(self, s):
        self.Tstar()
        self.TJ([s])

    def dquote(self, tw, tc, s):
        self.g.tw, self.g.tc = tw, tc
        self.quote(s)

    # xobjects
    def image(self, img):
        self.out.append({'t': 'image', 'box': box([pt(self.g.ctm, a, b) for a in (0, 1) for b in (0, 1)]), 'img': img})

    def BI(self, img, spell):
        self.image(img)

    def Do(self, name):
        x = self.res.xobjs[name.n.decode()]
        if isinstance(x, Image):
            self.image(x)
            return
        if any(x is f for f in self.active):
            # a form inside itself is left out
            self.skipped += 1
            return
        sub = Machine(x.res or self.res, q_leaks=self.q_leaks)
        sub.active = self.active + (x,)
        sub.g = self.g.copy()
        sub.g.ctm = mul(x.matrix or IDENT, self.g.ctm)
        b = x.bbox
        bb = box([pt(sub.g.ctm, p, q) for p in (b[0], b[2]) for q in (b[1], b[3])])
        items = sub.run(x.prog)
        self.events += sub.events
        self.skipped += sub.skipped
        self.out.append({'t': 'form', 'box': bb, 'items': items})


OPS = {o: o for o in 'q Q cm CS cs SC sc G RG rg K k m l c v y h re n BT ET Tc Tw Tz TL Ts Tf Td TD Tm TJ Tj BI Do'.split()}
OPS.update({'w': 'w_', 'g': 'g_', 'SCN': 'SC', 'scn': 'sc', 'S': 'paint_n', 'f': 'paint_n', 'F': 'paint_n', 'B': 'paint_n',
            'f*': 'paint_eo', 'B*': 'paint_eo', 's': 'close_n', 'b': 'close_n', 'b*': 'close_eo', 'T*': 'Tstar',
            "'": 'quote', '"': 'dquote', 'W': 'nop', 'W*': 'nop', 'J': 'nop', 'j': 'nop', 'M': 'nop', 'd': 'nop', 'i': 'nop',
            'ri': 'nop', 'gs': 'nop', 'BMC': 'nop', 'BDC': 'nop', 'EMC': 'nop', 'MP': 'nop', 'DP': 'nop', 'Tr': 'nop', 'sh': 'nop',
            'BX': 'nop', 'EX': 'nop'})


# -- writing -------------------------------------------------------------------
def tokens(prog, style=PLAIN):
    """Content tokens; an inline image is one token."""
    for op, args in prog:
        if op == 'BI':
            yield args[1]
            continue
        for a in args:
            yield from style.tokens(a)
        yield op.encode()


def content(prog, style=PLAIN):
    return style.join(tokens(prog, style), last_required=True) + b'\n'


# -- comparison ------------------------------------------------------------------
TOL = 1e-6


def close(a, b, scale=1.0):
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b), scale)


def boxes_close(a, b):
    s = max([abs(v) for v in a] + [1.0])
    return all(close(x, y, s) for x, y in zip(a, b))


def num_eq(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(a, b)
    return a == b


def col_eq(want, got):
    if want and want[0] == '?':
        return True
    return want[0] == got[0] and len(want[1]) == len(got[1]) and all(num_eq(x, y) for x, y in zip(want[1], got[1]))


def compare(want, got, L, colors=True, where=''):
    """want: model items; got: library items (empty text blocks dropped). -> first difference or None"""
    got = [i for i in got if not (isinstance(i, L.LTTextBlock) and len(i) == 0)]
    for n, (w, g) in enumerate(zip(want, got)):
        d = compare1(w, g, L, colors)
        if d:
            return '%sitem %d: %s' % (where, n, d)
    if len(want) != len(got):
        return '%sexpected %d items, got %d: %s' % (where, len(want), len(got), [type(g).__name__ for g in got][:12])
    return None


def bb(i):
    b = i.bbox
    return (b.x0, b.y0, b.x1, b.y1)


KINDS = {'curve': 'LTCurve', 'v': 'LTVerticalLine', 'h': 'LTHorizontalLine', 'line': 'LTLine', 'rect': 'LTRect'}


def compare1(w, g, L, colors):
    t = w['t']
    if t == 'path':
        if not isinstance(g, L.LTCurve):
            return 'expected a path, got %r' % (g,)
        if type(g).__name__ not in [KINDS[k] for k in w['kinds']]:
            return 'expected a %s, got %s for %r' % (' or '.join(w['kinds']), type(g).__name__, w['segs'])
        b = bb(g)
        i, o = w['inner'], w['outer']
        tol = TOL * max([abs(x) for x in o] + [1.0])
        if not (o[0] - tol <= b[0] <= i[0] + tol and o[1] - tol <= b[1] <= i[1] + tol
                and i[2] - tol <= b[2] <= o[2] + tol and i[3] - tol <= b[3] <= o[3] + tol):
            return 'box of path %r: expected %r%s got %r' % (w['segs'][:6], i, '' if i == o else ' to %r' % (o,), b)
        if bool(g.evenodd) != w['eo']:
            return 'even-odd flag: expected %r got %r' % (w['eo'], g.evenodd)
        segs = [(p.method.value, [(q.x, q.y) for q in p.points]) for p in g.paths]
        if len(segs) != len(w['segs']):
            return 'segments: expected %r got %r' % (w['segs'], segs)
        for a, b2 in zip(w['segs'], segs):
            if a[0] != b2[0] or len(a[1]) != len(b2[1]) or not all(close(p[0], q[0]) and close(p[1], q[1]) for p, q in zip(a[1], b2[1])):
                return 'segment: expected %r got %r' % (a, b2)
        if colors:
            if not num_eq(w['lw'], g.linewidth):
                return 'line width: expected %r got %r' % (w['lw'], g.linewidth)
            for k, c in (('sc', g.stroke), ('nc', g.fill)):
                if not col_eq(w[k], L.color(c)):
                    return '%s colour: expected %r got %r' % ({'sc': 'stroke', 'nc': 'fill'}[k], w[k], L.color(c))
        return None
    if t == 'text':
        if not isinstance(g, L.LTTextBlock):
            return 'expected text, got %r' % (g,)
        gb = list(g)
        if len(gb) != len(w['shows']):
            return 'expected %d text blocks got %d' % (len(w['shows']), len(gb))
        for s, b in zip(w['shows'], gb):
            cs = list(b)
            wt = [c[0] for c in s['chars']]
            gt = [c.get_text() for c in cs]
            if wt != gt:
                return 'characters: expected %r got %r' % (wt, gt)
            for c, h in zip(s['chars'], cs):
                if not boxes_close(c[1], bb(h)):
                    return 'box of character %r (of %r): expected %r got %r' % (c[0], ''.join(wt)[:20], c[1], bb(h))
            u = box([(c[1][0], c[1][1]) for c in s['chars']] + [(c[1][2], c[1][3]) for c in s['chars']])
            if not boxes_close(u, bb(b)):
                return 'box of character block: expected %r got %r' % (u, bb(b))
            for h in cs + [b]:
                if not close(h.size, h.width if s['vert'] else h.height, 1e3):
                    return 'size of %r: expected its %s, got %r' % (h, 'width' if s['vert'] else 'height', h.size)
            if s['font'] is not None and b.fontname != s['font']:
                return 'font name: expected %r got %r' % (s['font'], b.fontname)
            if colors and not col_eq(s['nc'], L.color(b.color)):
                return 'text colour: expected %r got %r' % (s['nc'], L.color(b.color))
        u = [bb(b) for b in gb]
        u = (min(x[0] for x in u), min(x[1] for x in u), max(x[2] for x in u), max(x[3] for x in u))
        if not boxes_close(u, bb(g)):
            return 'box of text block: expected %r got %r' % (u, bb(g))
        return None
    if t == 'image':
        if not isinstance(g, L.LTImage):
            return 'expected an image, got %r' % (g,)
        if not boxes_close(w['box'], bb(g)):
            return 'box of image: expected %r got %r' % (w['box'], bb(g))
        im = w['img']
        if tuple(g.srcsize) != (im.w, im.h):
            return 'image size: expected %r got %r' % ((im.w, im.h), g.srcsize)
        if im.data is not None and g.stream.get_data() != im.data:
            return 'image data: expected %s got %s' % (L.short(im.data), L.short(g.stream.get_data()))
        if g.bits != im.bpc:
            return 'bits: expected %r got %r' % (im.bpc, g.bits)
        if bool(g.imagemask) != im.mask:
            return 'image mask: expected %r got %r' % (im.mask, g.imagemask)
        if im.cs is not None and L.canon(g.colorspace) != im.cs:
            return 'colour space: expected %r got %r' % (im.cs, L.canon(g.colorspace))
        return None
    if t == 'form':
        if not isinstance(g, L.LTXObject):
            return 'expected a form, got %r' % (g,)
        if not boxes_close(w['box'], bb(g)):
            return 'box of form: expected %r got %r' % (w['box'], bb(g))
        return compare(w['items'], list(g), L, colors, 'form ')
    raise AssertionError(t)


def flat(items):
    """Model items with forms dissolved."""
    for i in items:
        if i['t'] == 'form':
            yield from flat(i['items'])
        else:
            yield i


def flat_lib(items, L):
    for i in items:
        if isinstance(i, L.LTXObject):
            yield from flat_lib(list(i), L)
        else:
            yield i
