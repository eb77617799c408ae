"""XML output is well-formed and carries exactly the document's content."""
import re
import xml.etree.ElementTree as ET
from vlib import conv
from vlib.harness import Violation
from vlib.conv import want, same

ID = 'C26'
LEVEL = 'exploration'
RULE = ('random documents with several pages, forms, images, shapes and fonts whose text, names and descriptors are hostile to the format, converted with random options and encodings; the '
        'file read by expat and compared with the items the interpreter reports (characters XML cannot hold may be missing or replaced); non-trivial when text with markup or '
        'control characters is converted, counted by distinct document')
ASSUMPTIONS = ['the items themselves are decided by C11-C23', 'names of images hold an address: only required to be non-empty text',
               'of the entries of a font descriptor only the usual ones are required under a fixed attribute name']
CASES = {'quick': 1500, 'thorough': 25000}
MIN = {'pages': 1200, 'curve': 1500, 'rect': 400, 'line': 200, 'xobject': 400, 'img': 600, 'text-block': 1200, 'blocks': 1400, 'in_form': 800, 'nasty_chars': 2000,
       'illegal_chars': 300, 'huge': 20, 'codecs_other': 250, 'font_names': 500}

BAD = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
DESC = {'FontName': 'font-name', 'Flags': 'flags', 'Ascent': 'ascent', 'Descent': 'descent', 'ItalicAngle': 'italic-angle', 'MissingWidth': 'missing-width'}


def num(s, ctx):
    want(s is not None, '%s: missing', ctx)
    if s == 'None':
        return None
    try:
        return int(s)
    except ValueError:
        try:
            return float(s)
        except ValueError:
            raise Violation('%s: not a number: %r' % (ctx, s))


def text_ok(exp, got):
    """equal where XML can hold the characters; others left out or replaced"""
    if BAD.sub('', exp) == got:
        return True
    pat = ''.join('.?' if BAD.match(c) else re.escape(c) for c in exp)
    return re.fullmatch(pat, got, re.S) is not None


def cmp_text(exp, got, ctx):
    want(got is not None and text_ok(exp, got), '%s: %r expected %r', ctx, got, exp)


def cmp_box(exp, el, ctx):
    for k, v in zip(('x0', 'x1', 'y0', 'y1'), exp):
        same(v, num(el.get(k), '%s %s' % (ctx, k)), '%s %s' % (ctx, k))


def cmp_col(exp, el, prefix, ctx):
    t, v = el.get(prefix + '-type'), el.get(prefix + '-values')
    if exp is None:
        want(t is None and v is None, '%s: %s where there is none: %r %r', ctx, prefix, t, v)
    else:
        cmp_text(exp[0], t, '%s %s type' % (ctx, prefix))
        cmp_text(','.join(exp[1]), v, '%s %s values' % (ctx, prefix))


def bare(el, ctx):
    want(not (el.text or '').strip(' \n') and not any((c.tail or '').strip(' \n') for c in el), '%s: stray text in %s', ctx, el.tag)


def cmp_item(exp, el, ctx, obs):
    t = exp['t']
    want(el.tag == t, '%s: element %r expected %r', ctx, el.tag, t)
    bare(el, ctx)
    cmp_box(exp['box'], el, ctx)
    if t in ('curve', 'rect', 'line'):
        want(set(el.keys()) <= {'x0', 'x1', 'y0', 'y1', 'stroke-type', 'stroke-values', 'fill-type', 'fill-values'}, '%s: attributes %r', ctx, el.keys())
        cmp_col(exp['stroke'], el, 'stroke', ctx)
        cmp_col(exp['fill'], el, 'fill', ctx)
        if t == 'curve' or len(el):
            want(len(el) == len(exp['paths']), '%s: %d paths expected %d', ctx, len(el), len(exp['paths']))
            for j, ((m, pts), g) in enumerate(zip(exp['paths'], el)):
                want(g.tag == 'path' and g.get('type') == m and len(g) == len(pts), '%s: path %d is %r, expected %r', ctx, j, ET.tostring(g), (m, pts))
                for (x, y), q in zip(pts, g):
                    want(q.tag == 'point', '%s: %r in a path', ctx, q.tag)
                    same(x, num(q.get('x'), ctx), '%s path %d x' % (ctx, j))
                    same(y, num(q.get('y'), ctx), '%s path %d y' % (ctx, j))
    elif t == 'img':
        want(el.get('src'), '%s: no src', ctx)
        want(len(el) == 0, '%s: img has children', ctx)
    elif t == 'xobject':
        cmp_list(exp['kids'], el, ctx, obs)
    else:
        want(len(el) == len(exp['kids']), '%s: %d blocks expected %d', ctx, len(el), len(exp['kids']))
        for j, (e, g) in enumerate(zip(exp['kids'], el)):
            cmp_block(e, g, '%s block %d' % (ctx, j), obs)


def cmp_block(e, g, ctx, obs):
    want(g.tag == 'char-block', '%s: element %r', ctx, g.tag)
    bare(g, ctx)
    cmp_box(e['box'], g, ctx)
    same(e['size'], num(g.get('size'), ctx + ' size'), ctx + ' size')
    cmp_col(e['color'], g, 'color', ctx)
    names = {}
    for k, v in e['desc'].items():
        if str(k) in DESC:
            names.setdefault(DESC[str(k)], []).append(v)
    low = [re.sub('[^a-z]', '', str(k).lower()) for k in e['desc']]
    for k, vs in names.items():
        if low.count(k.replace('-', '')) == 1:
            cmp_text(str(vs[0]), g.get(k), '%s %s' % (ctx, k))
            if k == 'font-name':
                obs.count('font_names')
    want(len(g) == len(e['chars']), '%s: %d characters expected %d', ctx, len(g), len(e['chars']))
    for j, ((c, b), el) in enumerate(zip(e['chars'], g)):
        want(el.tag == 'char' and len(el) == 0, '%s: %r for a character', ctx, el.tag)
        if BAD.search(c):
            obs.count('illegal_chars')
        cmp_text(c, el.text or '', '%s char %d' % (ctx, j))
        cmp_box(b, el, '%s char %d' % (ctx, j))


def cmp_list(exp, el, ctx, obs):
    want(len(el) == len(exp), '%s: %d children expected %d', ctx, len(el), len(exp))
    for j, (e, g) in enumerate(zip(exp, el)):
        cmp_item(e, g, '%s.%d' % (ctx, j), obs)


def case(r, i, tier, obs):
    d = conv.document(r)
    if d.huge:
        obs.count('huge')
    codec = r.choice(('utf-8', 'utf-8', 'utf-8', 'ascii', 'utf-16', 'iso-8859-1'))
    if codec != 'utf-8':
        obs.count('codecs_other')
    obs.artifact('in.pdf', d.pdf)
    exp = conv.expected(d.pdf, **d.opts)
    data = conv.convert(d.pdf, 'xml', codec=codec, **d.opts)
    obs.artifact('out.xml', data)
    nasty = conv.note(obs, exp)
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Violation('not well-formed: %s' % e)
    want(root.tag == 'pages', 'root is %r', root.tag)
    bare(root, 'document')
    want(len(root) == len(exp), '%d pages expected %d', len(root), len(exp))
    for n, (e, g) in enumerate(zip(exp, root)):
        want(g.tag == 'page' and g.get('id') == str(e['id']), 'page %d: %r id %r expected %r', n, g.tag, g.get('id'), e['id'])
        bare(g, 'page %d' % n)
        same(e['w'], num(g.get('width'), 'width'), 'page %d width' % n)
        same(e['h'], num(g.get('height'), 'height'), 'page %d height' % n)
        cmp_list(e['kids'], g, 'page %d' % n, obs)
    if nasty:
        obs.nontrivial(d.pdf)
