"""JSON output is valid and carries exactly the document's content."""
import json
from vlib import conv
from vlib.harness import Violation
from vlib.conv import want, same

ID = 'C25'
LEVEL = 'exploration'
RULE = ('random documents with several pages, forms, images, shapes and fonts whose text, names and descriptors are hostile to the format, converted with random options; the file '
        'read by a strict JSON parser (no duplicate keys, no NaN) and compared with the items the interpreter reports; non-trivial when text with characters that need escaping is '
        'converted, counted by distinct document')
ASSUMPTIONS = ['the items themselves are decided by C11-C23', 'names of images hold an address: only required to be non-empty text']
CASES = {'quick': 1500, 'thorough': 25000}
MIN = {'pages': 1200, 'curve': 1500, 'rect': 400, 'line': 200, 'xobject': 400, 'img': 600, 'text-block': 1200, 'blocks': 1400, 'in_form': 800, 'nasty_chars': 2000,
       'descriptor_entries': 10000, 'huge': 20, 'codecs_other': 250, 'null_numbers': 1000}


def pairs(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise Violation('duplicate key %r' % k)
        d[k] = v
    return d


def constant(c):
    raise Violation('not JSON: %s' % c)


def load(data, codec):
    try:
        text = data.decode(codec)
        return json.loads(text, object_pairs_hook=pairs, parse_constant=constant)
    except ValueError as e:
        raise Violation('not a JSON document: %s' % e)


def fin(v):
    import math
    return None if isinstance(v, float) and not math.isfinite(v) else v


def cmp_box(exp, got, ctx, obs):
    for k, v in zip(('x0', 'x1', 'y0', 'y1'), exp):
        if fin(v) is None:
            obs.count('null_numbers')
        same(fin(v), got.get(k), '%s %s' % (ctx, k))


def keys(got, ctx, need, may=()):
    want(isinstance(got, dict), '%s: not an object: %r', ctx, got)
    ks = set(got)
    want(ks >= set(need) and ks <= set(need) | set(may), '%s: keys %r', ctx, sorted(ks))


def cmp_col(exp, got, ctx):
    if exp is None:
        want(got is None, '%s: colour %r where there is none', ctx, got)
    else:
        want(got is not None, '%s: no colour, expected %r', ctx, exp)
        want(got == {'type': exp[0], 'value': exp[1]}, '%s: colour %r expected %r', ctx, got, exp)


B = ('x0', 'x1', 'y0', 'y1')


def cmp_item(exp, got, ctx, obs):
    t = exp['t']
    want(isinstance(got, dict) and got.get('type') == t, '%s: expected %s got %r', ctx, t, got if not isinstance(got, dict) else got.get('type'))
    cmp_box(exp['box'], got, ctx, obs)
    if t in ('curve', 'rect', 'line'):
        keys(got, ctx, B + ('type',) + (('paths',) if t == 'curve' else ()), ('fill', 'stroke', 'paths'))
        cmp_col(exp['fill'], got.get('fill'), ctx + ' fill')
        cmp_col(exp['stroke'], got.get('stroke'), ctx + ' stroke')
        if 'paths' in got:
            ps = got['paths']
            want(isinstance(ps, list) and len(ps) == len(exp['paths']), '%s: %r paths expected %d', ctx, ps, len(exp['paths']))
            for j, ((m, pts), g) in enumerate(zip(exp['paths'], ps)):
                want(g['type'] == m and len(g['points']) == len(pts), '%s: path %d %r expected %r', ctx, j, g, (m, pts))
                for (x, y), q in zip(pts, g['points']):
                    keys(q, ctx, ('x', 'y'))
                    same(fin(x), q['x'], '%s path %d x' % (ctx, j))
                    same(fin(y), q['y'], '%s path %d y' % (ctx, j))
    elif t == 'img':
        keys(got, ctx, B + ('type', 'src'))
        want(isinstance(got['src'], str) and got['src'], '%s: src %r', ctx, got['src'])
    elif t == 'xobject':
        keys(got, ctx, B + ('type', 'children'))
        cmp_list(exp['kids'], got['children'], ctx, obs)
    else:
        keys(got, ctx, B + ('type', 'char_blocks'))
        want(isinstance(got['char_blocks'], list) and len(got['char_blocks']) == len(exp['kids']), '%s: %r blocks expected %d', ctx, len(got['char_blocks']), len(exp['kids']))
        for j, (e, g) in enumerate(zip(exp['kids'], got['char_blocks'])):
            cmp_block(e, g, '%s block %d' % (ctx, j), obs)


FIXED = ('size', 'x0', 'x1', 'y0', 'y1', 'color', 'text')


def cmp_block(e, g, ctx, obs):
    keys(g, ctx, B + ('size', 'text'), ['color'] + [str(k) for k in e['desc']])
    cmp_box(e['box'], g, ctx, obs)
    same(fin(e['size']), g['size'], ctx + ' size')
    want(g['text'] == e['text'], '%s: text %r expected %r', ctx, g['text'], e['text'])
    if e['color'] is not None or 'color' not in map(str, e['desc']):
        cmp_col(e['color'], g.get('color'), ctx + ' color')
    for k, v in e['desc'].items():
        if str(k) not in FIXED:
            want(str(k) in g, '%s: font entry %r missing', ctx, str(k))
            want(str(g[str(k)]) == str(v), '%s: font entry %r is %r expected %r', ctx, k, g[str(k)], v)


def cmp_list(exp, got, ctx, obs):
    want(isinstance(got, list) and len(got) == len(exp), '%s: %r children expected %d', ctx, len(got) if isinstance(got, list) else got, len(exp))
    for j, (e, g) in enumerate(zip(exp, got)):
        cmp_item(e, g, '%s.%d' % (ctx, j), obs)


def case(r, i, tier, obs):
    d = conv.document(r)
    if d.huge:
        obs.count('huge')
    codec = r.choice(('utf-8', 'utf-8', 'utf-8', 'ascii', 'utf-16', 'latin-1', 'utf-8-sig'))
    if codec != 'utf-8':
        obs.count('codecs_other')
    obs.artifact('in.pdf', d.pdf)
    exp = conv.expected(d.pdf, **d.opts)
    data = conv.convert(d.pdf, 'json', codec=codec, **d.opts)
    obs.artifact('out.json', data)
    nasty = conv.note(obs, exp)
    got = load(data, codec)
    keys(got, 'document', ('pages',))
    want(isinstance(got['pages'], list) and len(got['pages']) == len(exp), '%r pages expected %d', len(got['pages']), len(exp))
    for n, (e, g) in enumerate(zip(exp, got['pages'])):
        keys(g, 'page %d' % n, ('id', 'width', 'height', 'children'))
        want(g['id'] == e['id'], 'page %d: id %r expected %r', n, g['id'], e['id'])
        same(e['w'], g['width'], 'page %d width' % n)
        same(e['h'], g['height'], 'page %d height' % n)
        cmp_list(e['kids'], g['children'], 'page %d' % n, obs)
    if nasty:
        obs.nontrivial(d.pdf)
