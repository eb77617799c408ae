"""Documents for the converters and what the interpreter reports for them."""
import os
import math
import zlib

from pdfmajor.converters import convert_file, convert_to_html, convert_to_json, convert_to_text, convert_to_xml, convert_to_yaml
from pdfmajor.interpreter import LTTextBlock, LTCurve, LTLine, LTRect, LTImage, LTXObject
from pdfmajor.parser.PSStackParser import PSLiteral

from . import lib, harness, hostile, proggen
from .docgen import rich
from .pdfgen import Name
from .hostile import hostile_font, nasty_bytes
from .crypt import Enc


class In:
    """A document, the options to convert it with, and the expected pages."""


def document(r, enc=True, fontf=hostile_font, bad=True, huge=0.05, **kw):
    d = In()
    pats = [Name(nasty_bytes(r)) for _ in range(3)]
    d.opts = {}
    e = None
    if enc and r.random() < 0.15:
        pw = r.choice(('', 'pw'))
        e = Enc(r, r.choice(('rc4-40', 'rc4', 'v4-aes')), pw)
        if pw:
            d.opts['password'] = pw
    used = []

    def ff(r, doc, name):
        f = fontf(r, doc, name)
        used.append(f)
        if bad and r.random() < 0.1 and f.nbytes == 1:
            f.bad = (0.2, [1, 2, 3])
        return f
    d.huge = r.random() < huge
    if d.huge:
        out = rich(r, fontf=ff, pats=pats, build=False, **kw)
        d.opts.pop('password', None)
        big = b'1' + b'0' * r.choice((20, 100, 200, 308))
        small = b'0.' + b'0' * r.choice((3, 5, 9, 20)) + b'123'
        simple = [n for n, f in {f.name: f for f in used}.items() if f.nbytes == 1]
        f = simple[0].encode() if simple else b''
        body = b' '.join(r.choice((b'0 0 m ' + big + b' -' + big + b' l S', b'q %b 0 0 -%b 0 0 cm -2 2 10 %b re f Q' % (big, big, big), b'q %b 0 0 %b 0 0 cm 2 2 10 %b re f Q' % (big, big, big), b'%b 1 1 rg' % small,
                                   b'q %b 0 0 %b 7 7 cm 0 0 m 10 10 l 20 0 l s Q' % (small, small),
                                   b'BT /%b %b Tf %b 5 Td (ab) Tj ET' % (f, r.choice((big, small)), r.choice((small, big))) if f else b'n')) for _ in range(r.choice((1, 3, 8))))
        out.doc.page(body, {'Font': proggen.font_res(used)})
        out.npages += 1
        out.pdf = out.doc.build(style=out.style, rng=r)
    else:
        out = rich(r, enc=e, fontf=ff, pats=pats, **kw)
    d.pdf, d.npages = out.pdf, out.npages
    d.out = out
    if r.random() < 0.25:
        d.opts['maxpages'] = r.choice((1, 2, d.npages, d.npages + 1))
    if r.random() < 0.25:
        d.opts['pagenos'] = sorted(set(r.randrange(d.npages) for _ in range(r.choice((1, 2)))))
    if r.random() < 0.2:
        d.opts['caching'] = False
    if any(getattr(f, 'bad', None) for f in used) or r.random() < 0.1:
        d.opts['ignore_bad_chars'] = True
    if r.random() < 0.2:
        d.opts['check_extractable'] = False
    return d


def col(c):
    if c.color_space is None:
        return None
    return (str(c.color_space.name), [str(v.name) if isinstance(v, PSLiteral) else str(v) for v in c.values])


class Box(tuple):
    """(x0, x1, y0, y1) with the reported width and height"""


def box(i):
    b = Box((i.x0, i.x1, i.y0, i.y1))
    b.w, b.h = i.width, i.height
    return b


def tree(item):
    """Neutral picture of an interpreter item."""
    if isinstance(item, LTCurve):
        kind = 'rect' if isinstance(item, LTRect) else 'line' if isinstance(item, LTLine) else 'curve'
        return {'t': kind, 'box': box(item), 'fill': col(item.fill), 'stroke': col(item.stroke), 'w': item.width, 'h': item.height,
                'paths': [(p.method.name, [(q.x, q.y) for q in p.points]) for p in item.paths]}
    if isinstance(item, LTXObject):
        return {'t': 'xobject', 'box': box(item), 'w': item.width, 'h': item.height, 'kids': [tree(c) for c in item]}
    if isinstance(item, LTImage):
        return {'t': 'img', 'box': box(item), 'w': item.width, 'h': item.height}
    if isinstance(item, LTTextBlock):
        return {'t': 'text-block', 'box': box(item), 'kids': [block(b) for b in item]}
    raise harness.Violation('unknown item %r' % (item,))


def block(b):
    chars = [(c.get_text(), box(c)) for c in b]
    return {'box': box(b), 'size': b.size, 'color': col(b.color), 'chars': chars, 'text': ''.join(c for c, _ in chars), 'w': b.width, 'h': b.height,
            'desc': {k: v for k, v in b.font.descriptor.items() if k != 'Type' and 'FontFile' not in str(k)}}


def expected(pdf, **opts):
    return [{'id': p.page_num, 'w': p.width, 'h': p.height, 'kids': [tree(i) for i in items]} for p, items in lib.pages(pdf, **opts)]


def walk(pages, f, depth=0):
    """f(item, depth) for every item."""
    for p in pages:
        for k in p['kids']:
            visit(k, f, 0)


def visit(k, f, depth):
    f(k, depth)
    if k['t'] == 'xobject':
        for c in k['kids']:
            visit(c, f, depth + 1)


def note(obs, pages):
    obs.count('pages', len(pages))
    seen = []

    def f(k, d):
        obs.count(k['t'])
        if d:
            obs.count('in_form')
        if k['t'] == 'text-block':
            for b in k['kids']:
                obs.count('blocks')
                obs.count('chars', len(b['chars']))
                for c, _ in b['chars']:
                    if any(not (32 <= ord(x) < 127) or x in '"\\<>&\'' for x in c):
                        obs.count('nasty_chars')
                        obs.distinct('nasty', c)
                        seen.append(c)
                obs.count('descriptor_entries', len(b['desc']))
            if not k['kids']:
                obs.count('empty_block')
    walk(pages, f)
    return bool(seen)


DIRECT = {'html': convert_to_html, 'json': convert_to_json, 'text': convert_to_text, 'xml': convert_to_xml, 'yaml': convert_to_yaml}


def convert(pdf, out_type, name=None, **opts):
    """-> output file's bytes"""
    src = harness.write_tmp(pdf, 'conv.pdf')
    dst = os.path.join(harness.tmpdir(), name or 'conv.' + out_type)
    if os.path.exists(dst):
        os.unlink(dst)
    if opts.get('codec') == 'utf-8':
        # the default
        del opts['codec']
    if zlib.crc32(pdf) % 3:
        convert_file(src, dst, out_type=out_type, **opts)
    else:
        DIRECT[out_type](src, dst, **opts)
    with open(dst, 'rb') as f:
        data = f.read()
    os.unlink(dst)
    return data


def same(exp, got, ctx):
    """Numbers equal up to printing."""
    if exp is None or got is None:
        if exp is not got:
            raise harness.Violation('%s: expected %r got %r' % (ctx, exp, got))
        return
    if isinstance(got, bool) or not isinstance(got, (int, float)):
        raise harness.Violation('%s: expected the number %r got %r' % (ctx, exp, got))
    if exp == got or (math.isnan(exp) and math.isnan(got)):
        return
    if not math.isfinite(exp) or not math.isfinite(got) or abs(exp - got) > 1e-9 * max(1.0, abs(exp)):
        raise harness.Violation('%s: expected %r got %r' % (ctx, exp, got))


def want(cond, msg, *a):
    if not cond:
        raise harness.Violation(msg % a if a else msg)
