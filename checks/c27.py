"""HTML output keeps the text and cannot be taken over by it."""
import html
import math
import re
import unicodedata
from html.parser import HTMLParser
from vlib import conv
from vlib.harness import Violation
from vlib.conv import want, same

ID = 'C27'
LEVEL = 'exploration'
RULE = ('random documents with several pages, forms, images, shapes and fonts whose text, names and descriptors are hostile to the format, converted with random options and encodings; the '
        'file read by the standard HTML parser with a strict element stack: only the elements and attributes the converter itself uses, properly nested, and the characters, shapes, '
        'images and forms of the interpreter in order; non-trivial when text with markup or control characters is converted, counted by distinct document')
ASSUMPTIONS = ['the items themselves are decided by C11-C23', 'white space around a character and control characters are not compared: HTML does not keep them',
               'names inside style values, and colours other than gray and RGB, are not compared; gray may be given as transparent black (on white paper)',
               'the place of images and forms is not part of the HTML (the converter does not write it)']
CASES = {'quick': 1500, 'thorough': 25000}
MIN = {'pages': 1200, 'curve': 1500, 'rect': 400, 'line': 200, 'xobject': 400, 'img': 600, 'text-block': 1200, 'blocks': 1400, 'in_form': 800, 'nasty_chars': 2000,
       'huge': 20, 'codecs_other': 250, 'placed_paths': 500, 'CURVE_NEXT_TO': 1000, 'CURVE_FIRST_TO': 1000, 'colours': 3000}

TAGS = {'html': set(), 'head': set(), 'meta': {'http-equiv', 'content', 'charset'}, 'style': set(), 'body': set(), 'div': {'class', 'id', 'style'},
        'span': {'class', 'style'}, 'img': {'src', 'background', 'width', 'height', 'style', 'class', 'alt'},
        'svg': {'class', 'z-index', 'viewbox', 'width', 'height', 'style'}, 'path': {'d', 'fill', 'stroke', 'style'}}
VOID = {'meta', 'img'}
C1 = {html.unescape('&#%d;' % k) for k in range(128, 160)}


class El:
    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.kids, self.text = tag, attrs, [], ''

    @property
    def cls(self):
        return self.attrs.get('class')


class Parser(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = El('', {})
        self.stack = [self.root]

    def handle_starttag(self, tag, attrs, closed=False):
        want(tag in TAGS, 'element <%s> %r', tag, attrs)
        d = {}
        for k, v in attrs:
            want(k in TAGS[tag], '<%s> has attribute %r=%r', tag, k, v)
            want(k not in d, '<%s> repeats attribute %r', tag, k)
            d[k] = v or ''
        el = El(tag, d)
        self.stack[-1].kids.append(el)
        if not closed and tag not in VOID:
            self.stack.append(el)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs, True)

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        want(len(self.stack) > 1 and self.stack[-1].tag == tag, '</%s> closes %s', tag, self.stack[-1].tag)
        self.stack.pop()

    def handle_data(self, data):
        self.stack[-1].text += data

    def odd(self, data):
        raise Violation('markup that the converter does not write: %r' % data)

    def handle_decl(self, data):
        want(data.lower() == 'doctype html', 'declaration %r', data)
    handle_comment = handle_pi = unknown_decl = odd


def norm(s, c1):
    s = ''.join(' ' if c in '\t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85' else c for c in s)
    s = ''.join(c for c in s if unicodedata.category(c) not in ('Cc', 'Cn', 'Cs') and c != '\ufffd' and not (ord(c) & 0xfffe == 0xfffe))
    if c1:
        s = ''.join(c for c in s if c not in C1)
    return s.strip()


def style(el, name):
    m = re.search(r'(?:^|;)\s*%s:\s*([^;]*?)(?:px)?\s*(?:;|$)' % re.escape(name), el.attrs.get('style', ''))
    return m and m.group(1)


def num(s, ctx):
    if s == 'None':
        return None
    try:
        return float(s)
    except (TypeError, ValueError):
        raise Violation('%s: not a number: %r' % (ctx, s))


def fl(v):
    try:
        return None if v is None else float(v)
    except OverflowError:
        return math.inf if v > 0 else -math.inf


def cmp_char(c, b, el, ctx):
    want(el.tag == 'span' and el.cls == 'char' and not el.kids, '%s: <%s class=%r> for a character', ctx, el.tag, el.cls)
    c1 = any('\x80' <= x < '\xa0' for x in c)
    want(norm(c, c1) == norm(el.text, c1), '%s: text %r expected %r', ctx, el.text, c)
    for k, v in (('width', b.w), ('height', b.h)):
        cmp_style(v, style(el, k), '%s %s' % (ctx, k))


def cmp_style(exp, got, ctx):
    same(fl(exp), num(got, ctx), ctx)


def rgb(s):
    """CSS colour -> levels of red, green and blue on white paper."""
    m = re.fullmatch(r'(rgba?)\(([^()]*)\)', s or '')
    if not m:
        return None
    try:
        v = [float(x) for x in m.group(2).split(',')]
    except ValueError:
        return None
    if len(v) != len(m.group(1)):
        return None
    c = [min(max(x, 0.0), 255.0) for x in v[:3]]
    a = min(max(v[3], 0.0), 1.0) if len(v) == 4 else 1.0
    return [255 - a * (255 - x) for x in c]


def cmp_colour(exp, got, ctx, obs):
    """Gray and RGB colours; others have no counterpart in CSS."""
    if exp is None or exp[0] not in ('DeviceGray', 'DeviceRGB') or len(exp[1]) != (1 if exp[0] == 'DeviceGray' else 3):
        return
    try:
        v = [float(x) for x in exp[1]]
    except ValueError:
        return
    if len(v) == 1:
        v = [255 * v[0]] * 3
    v = [min(max(x, 0.0), 255.0) for x in v]
    g = rgb(got)
    want(g is not None and all(abs(a - b) <= 1 for a, b in zip(v, g)), '%s: colour %r expected %r', ctx, got, exp)
    obs.count('colours')


def bare(el, ctx):
    want(not el.text.strip(), '%s: stray text %r in <%s>', ctx, el.text[:100], el.tag)


def cmp_block(e, el, ctx, obs):
    want(el.tag == 'span' and el.cls == 'char-block', '%s: <%s class=%r> for a block', ctx, el.tag, el.cls)
    bare(el, ctx)
    for k, v in (('left', e['box'][0]), ('bottom', e['box'][2]), ('font-size', e['size']), ('width', e['w']), ('height', e['h'])):
        cmp_style(v, style(el, k), '%s %s' % (ctx, k))
    if e['color'] is None:
        want(style(el, 'color') == 'black', '%s: colour %r where none is set', ctx, style(el, 'color'))
    cmp_colour(e['color'], style(el, 'color'), ctx + ' text', obs)
    want(len(el.kids) == len(e['chars']), '%s: %d characters expected %d', ctx, len(el.kids), len(e['chars']))
    for j, ((c, b), k) in enumerate(zip(e['chars'], el.kids)):
        cmp_char(c, b, k, '%s char %d' % (ctx, j))


OPS = {'MOVE_TO': 'M', 'LINE_TO': 'L', 'CURVE_BOTH_TO': 'C', 'CURVE_NEXT_TO': 'C', 'CURVE_FIRST_TO': 'C', 'CLOSE_PATH': 'Z'}


def segments(paths):
    """Path commands with all their points: a curve has three."""
    out = []
    start = cur = None
    for m, pts in paths:
        full = list(pts)
        if m == 'CURVE_NEXT_TO':
            full = [cur or pts[0]] + full
        if m == 'CURVE_FIRST_TO':
            full.append(pts[-1])
        out.append((OPS[m], full))
        cur = start if m == 'CLOSE_PATH' else pts[-1]
        if m == 'MOVE_TO':
            start = cur
    return out


def cmp_curve(e, el, ctx, obs, page):
    want(el.tag == 'svg' and el.cls == 'curve', '%s: <%s class=%r> for a shape', ctx, el.tag, el.cls)
    bare(el, ctx)
    want(len(el.kids) == 1 and el.kids[0].tag == 'path', '%s: svg holds %r', ctx, [k.tag for k in el.kids])
    d = el.kids[0].attrs.get('d')
    want(d is not None, '%s: path without d', ctx)
    toks = re.findall(r'([MLCZ])([^MLCZ]*)', d)
    exp = segments(e['paths'])
    want([t[0] for t in toks] == [m for m, _ in exp], '%s: path %r expected %r', ctx, d, exp)
    x0, x1, y0, y1 = map(fl, e['box'])
    w, h = fl(e['w']), fl(e['h'])
    ok = all(abs(fl(v)) < 1e6 for m, ps in exp for p in ps for v in p) and h > 1e-3 and w > 0.02 and max(map(abs, (x0, x1, y0, y1))) < 1e6
    vb = (el.attrs.get('viewbox') or '').split()
    for m, _ in e['paths']:
        obs.count(m)
    for (m, pts), (_, args) in zip(exp, toks):
        a = args.replace(',', ' ').split()
        want(len(a) == 2 * len(pts), '%s: path %r expected %r', ctx, d, exp)
        if not ok:
            continue
        obs.count('placed_paths')
        # one unit of the view box is the height of the shape
        for (x, y), gx, gy in zip(pts, a[::2], a[1::2]):
            gx, gy = x0 + num(gx, ctx) * h, y1 - num(gy, ctx) * h
            tol = 1e-6 * max(1.0, abs(x), abs(y), h)
            want(abs(gx - x) <= tol and abs(gy - y) <= tol, '%s: path point (%r, %r) expected (%r, %r)', ctx, gx, gy, x, y)
    # the box of the shape, from the top of the page
    for k, v in (('left', e['box'][0]), ('width', e['w']), ('height', e['h'])):
        cmp_style(v, style(el, k), '%s %s' % (ctx, k))
    if ok:
        top = num(style(el, 'top'), ctx)
        want(top is not None and abs(top - (fl(page['h']) - y1)) <= 1e-6 * max(1.0, abs(y1), abs(fl(page['h']))), '%s: top %r of a shape up to %r', ctx, top, y1)
    for k in ('fill', 'stroke'):
        cmp_colour(e[k], style(el.kids[0], k) or el.kids[0].attrs.get(k), '%s %s' % (ctx, k), obs)
    if ok:
        want(len(vb) == 4, '%s: viewBox %r', ctx, vb)
        same(w / h, num(vb[2], ctx), ctx + ' viewBox width')
        same(1.0, num(vb[3], ctx), ctx + ' viewBox height')


def cmp_item(e, el, ctx, obs, page):
    t = e['t']
    if t in ('curve', 'rect', 'line'):
        cmp_curve(e, el, ctx, obs, page)
    elif t == 'img':
        want(el.tag == 'img' and el.attrs.get('src'), '%s: <%s> for an image', ctx, el.tag)
        for k, v in (('width', e['w']), ('height', e['h'])):
            cmp_style(v, (el.attrs.get(k) or '').removesuffix('px'), '%s %s' % (ctx, k))
    elif t == 'xobject':
        want(el.tag == 'div' and el.cls == 'xobject', '%s: <%s class=%r> for a form', ctx, el.tag, el.cls)
        for k, v in (('width', e['w']), ('height', e['h'])):
            cmp_style(v, style(el, k), '%s %s' % (ctx, k))
        cmp_list(e['kids'], el, ctx, obs, page)
    else:
        want(el.tag == 'span' and el.cls == 'text-block', '%s: <%s class=%r> for text', ctx, el.tag, el.cls)
        bare(el, ctx)
        want(len(el.kids) == len(e['kids']), '%s: %d blocks expected %d', ctx, len(el.kids), len(e['kids']))
        for j, (b, k) in enumerate(zip(e['kids'], el.kids)):
            cmp_block(b, k, '%s block %d' % (ctx, j), obs)


def cmp_list(exp, el, ctx, obs, page):
    bare(el, ctx)
    want(len(el.kids) == len(exp), '%s: %d children expected %d', ctx, len(el.kids), len(exp))
    for j, (e, k) in enumerate(zip(exp, el.kids)):
        cmp_item(e, k, '%s.%d' % (ctx, j), obs, page)


def case(r, i, tier, obs):
    d = conv.document(r)
    if d.huge:
        obs.count('huge')
    codec = r.choice(('utf-8', 'utf-8', 'utf-8', 'ascii', 'utf-16', 'iso-8859-1'))
    if codec != 'utf-8':
        obs.count('codecs_other')
    obs.artifact('in.pdf', d.pdf)
    exp = conv.expected(d.pdf, **d.opts)
    data = conv.convert(d.pdf, 'html', codec=codec, **d.opts)
    obs.artifact('out.html', data)
    nasty = conv.note(obs, exp)
    p = Parser()
    p.feed(data.decode(codec))
    p.close()
    want(len(p.stack) == 1, 'unclosed <%s>', p.stack[-1].tag)
    tops = [k for k in p.root.kids]
    want([k.tag for k in tops] == ['html'] and not p.root.text.strip(), 'document is %r %r', [k.tag for k in tops], p.root.text[:80])
    want([k.tag for k in tops[0].kids] == ['head', 'body'], 'html holds %r', [k.tag for k in tops[0].kids])
    head, body = tops[0].kids
    want([k.tag for k in head.kids] == ['meta', 'style'], 'head holds %r', [k.tag for k in head.kids])
    want(head.kids[0].attrs.get('charset', codec) == codec, 'charset %r', head.kids[0].attrs)
    bare(body, 'body')
    want(len(body.kids) == len(exp), '%d pages expected %d', len(body.kids), len(exp))
    for n, (e, el) in enumerate(zip(exp, body.kids)):
        want(el.tag == 'div' and el.cls == 'page' and el.attrs.get('id') == 'page-%d' % e['id'], 'page %d is <%s %r>', n, el.tag, el.attrs)
        same(fl(e['w']), num(style(el, 'width'), 'width'), 'page %d width' % n)
        same(fl(e['h']), num(style(el, 'height'), 'height'), 'page %d height' % n)
        cmp_list(e['kids'], el, 'page %d' % n, obs, e)
    if nasty:
        obs.nontrivial(d.pdf)
