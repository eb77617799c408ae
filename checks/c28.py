"""YAML output is valid and carries exactly the document's content."""
import yaml
from vlib import conv
from vlib.harness import Violation
from vlib.conv import want, same

ID = 'C28'
LEVEL = 'exploration'
RULE = ('random documents with several pages, forms, images, shapes and fonts whose text, names and descriptors are hostile to the format, converted with random options; the file '
        'read by libyaml (numbers must be numbers, text text) and compared with the items the interpreter reports; non-trivial when text with characters that need quoting or escaping '
        'is converted, counted by distinct document')
ASSUMPTIONS = ['the items themselves are decided by C11-C23', 'names of images hold an address: only required to be non-empty text', 'empty lists may be written as null']
CASES = {'quick': 1000, 'thorough': 16000}
MIN = {'pages': 800, 'curve': 1000, 'rect': 280, 'line': 130, 'xobject': 280, 'img': 400, 'text-block': 800, 'blocks': 900, 'in_form': 500, 'nasty_chars': 1300,
       'descriptor_entries': 6000, 'huge': 12, 'codecs_other': 150, 'coloured': 1000}


class Loader(yaml.CSafeLoader):
    pass


def mapping(loader, node):
    d = {}
    for k, v in node.value:
        key = loader.construct_object(k, True)
        if key in d:
            raise Violation('duplicate key %r' % (key,))
        d[key] = loader.construct_object(v, True)
    return d


Loader.add_constructor('tag:yaml.org,2002:map', mapping)
B = ('x0', 'x1', 'y0', 'y1')


def keys(got, ctx, need, may=()):
    want(isinstance(got, dict), '%s: not a mapping: %r', ctx, got)
    ks = set(got)
    want(ks >= set(need) and ks <= set(need) | set(may), '%s: keys %r', ctx, sorted(map(str, ks)))


def seq(v, n, ctx):
    if v is None:
        v = []
    want(isinstance(v, list) and len(v) == n, '%s: %r expected %d', ctx, len(v) if isinstance(v, list) else v, n)
    return v


def cmp_box(exp, got, ctx):
    for k, v in zip(B, exp):
        want(k in got, '%s: no %s', ctx, k)
        same(v, got[k], '%s %s' % (ctx, k))


def cmp_col(exp, got, ctx, obs):
    if exp is None:
        want(got is None, '%s: colour %r where there is none', ctx, got)
        return
    obs.count('coloured')
    want(got is not None, '%s: no colour, expected %r', ctx, exp)
    keys(got, ctx, ('type', 'value'))
    want(got['type'] == exp[0], '%s: colour space %r expected %r', ctx, got['type'], exp[0])
    for e, g in zip(exp[1], seq(got['value'], len(exp[1]), ctx)):
        want(str(g) == e, '%s: colour %r expected %r', ctx, got, exp)


def cmp_item(exp, got, ctx, obs):
    t = exp['t']
    want(isinstance(got, dict) and got.get('type') == t, '%s: expected %s got %r', ctx, t, got if not isinstance(got, dict) else got.get('type'))
    cmp_box(exp['box'], got, ctx)
    if t in ('curve', 'rect', 'line'):
        keys(got, ctx, B + ('type',) + (('paths',) if t == 'curve' else ()), ('fill', 'stroke', 'paths'))
        cmp_col(exp['fill'], got.get('fill'), ctx + ' fill', obs)
        cmp_col(exp['stroke'], got.get('stroke'), ctx + ' stroke', obs)
        if 'paths' in got:
            for j, ((m, pts), g) in enumerate(zip(exp['paths'], seq(got['paths'], len(exp['paths']), ctx + ' paths'))):
                keys(g, ctx, ('type', 'points'))
                want(g['type'] == m, '%s: path %d %r expected %r', ctx, j, g, (m, pts))
                for (x, y), q in zip(pts, seq(g['points'], len(pts), ctx + ' points')):
                    keys(q, ctx, ('x', 'y'))
                    same(x, q['x'], '%s path %d x' % (ctx, j))
                    same(y, q['y'], '%s path %d y' % (ctx, j))
    elif t == 'img':
        keys(got, ctx, B + ('type', 'src'))
        want(isinstance(got['src'], str) and got['src'], '%s: src %r', ctx, got['src'])
    elif t == 'xobject':
        keys(got, ctx, B + ('type', 'children'))
        cmp_list(exp['kids'], got['children'], ctx, obs)
    else:
        keys(got, ctx, B + ('type', 'char_blocks'))
        for j, (e, g) in enumerate(zip(exp['kids'], seq(got['char_blocks'], len(exp['kids']), ctx + ' blocks'))):
            cmp_block(e, g, '%s block %d' % (ctx, j), obs)


FIXED = ('size', 'x0', 'x1', 'y0', 'y1', 'color', 'text')


def cmp_block(e, g, ctx, obs):
    keys(g, ctx, B + ('size', 'text'), ['color'] + [str(k) for k in e['desc']])
    cmp_box(e['box'], g, ctx)
    same(e['size'], g['size'], ctx + ' size')
    want(g['text'] == e['text'] and isinstance(g['text'], str), '%s: text %r expected %r', ctx, g['text'], e['text'])
    if e['color'] is not None or 'color' not in map(str, e['desc']):
        cmp_col(e['color'], g.get('color'), ctx + ' color', obs)
    for k, v in e['desc'].items():
        k = str(k)
        if k not in FIXED:
            want(k in g, '%s: font entry %r missing', ctx, k)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                same(v, g[k], '%s %s' % (ctx, k))
            else:
                want(str(g[k]) == str(v), '%s: font entry %r is %r expected %r', ctx, k, g[k], v)


def cmp_list(exp, got, ctx, obs):
    for j, (e, g) in enumerate(zip(exp, seq(got, len(exp), ctx + ' children'))):
        cmp_item(e, g, '%s.%d' % (ctx, j), obs)


def case(r, i, tier, obs):
    d = conv.document(r)
    if d.huge:
        obs.count('huge')
    codec = r.choice(('utf-8', 'utf-8', 'utf-8', 'ascii', 'utf-16', 'latin-1', 'utf-8-sig'))
    if codec != 'utf-8':
        obs.count('codecs_other')
    obs.artifact('in.pdf', d.pdf)
    exp = conv.expected(d.pdf, **d.opts)
    data = conv.convert(d.pdf, 'yaml', codec=codec, **d.opts)
    obs.artifact('out.yaml', data)
    nasty = conv.note(obs, exp)
    try:
        docs = list(yaml.load_all(data.decode(codec), Loader))
    except (yaml.YAMLError, ValueError) as e:
        raise Violation('not a YAML document: %s' % e)
    want(len(docs) == 1, '%d YAML documents', len(docs))
    keys(docs[0], 'document', ('pages',))
    for n, (e, g) in enumerate(zip(exp, seq(docs[0]['pages'], len(exp), 'pages'))):
        keys(g, 'page %d' % n, ('id', 'width', 'height', 'children'))
        want(g['id'] == e['id'] and not isinstance(g['id'], bool), 'page %d: id %r expected %r', n, g['id'], e['id'])
        same(e['w'], g['width'], 'page %d width' % n)
        same(e['h'], g['height'], 'page %d height' % n)
        cmp_list(e['kids'], g['children'], 'page %d' % n, obs)
    if nasty:
        obs.nontrivial(d.pdf)
