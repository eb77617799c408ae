"""Painted paths are reported with their true geometry."""
from vlib.harness import Violation
from vlib.pdfgen import Doc, Style
from vlib import lib, refint
from vlib.proggen import Gen, rand_matrix, dy

ID = 'C14'
LEVEL = 'exploration'
RULE = ('random path construction and painting operators under random transformations; every reported shape compared with an independent reference '
        'interpreter; counted by distinct program with at least one painted and one general (Bezier, multi-part or transformed) path')
ASSUMPTIONS = ['the box of a path with Bezier segments is accepted anywhere between the box of its end points and that of all its points']
CASES = {'quick': 12000, 'thorough': 150000}
MIN = {'paths': 15000, 'bezier': 4000, 'rect': 2500, 'line': 1500, 'general': 4000, 'unpainted': 500, 'rotated_matrix': 3000, 'far': 400}
PAINT = 'S s f F f* B B* b b* n'.split()


def case(r, i, tier, obs):
    doc = Doc()
    g = Gen(r, text=False, colours=False)
    flat = r.random() < 0.3
    n = r.choice((1, 3, 8, 20))
    rotated = False
    if r.random() < 0.06:
        # far away
        g.add('cm', 1, 0, 0, 1, *(r.choice((0, 0, -1, 1)) * 2 ** r.randrange(20, 37) for _ in range(2)))
        obs.count('far')
    for _ in range(n):
        k = r.random()
        if k < 0.15:
            g.save()
        elif k < 0.3 and g.saved:
            g.restore()
        elif k < 0.5:
            m = rand_matrix(r, flat)
            rotated = rotated or bool(m[1])
            g.add('cm', *m)
        elif k < 0.53:
            g.misc()
        elif k < 0.56:
            # painting or dropping nothing
            g.add(r.choice(PAINT))
        elif k < 0.6:
            # many segments
            g.add('m', g.num(), g.num())
            for _ in range(r.choice((50, 300))):
                g.add('l', g.num(), g.num())
            g.add(r.choice(PAINT))
        elif k < 0.66:
            # corners that nearly make a rectangle
            x0, y0, w, h = g.num(), g.num(), dy(r, 1, 99), dy(r, 1, 99)
            c = [[x0, y0], [x0 + w, y0], [x0 + w, y0 + h], [x0, y0 + h]]
            if r.random() < 0.7:
                c[r.randrange(4)][r.randrange(2)] += r.choice((0.125, -1, 30))
            g.add('m', *c[0])
            for p in c[1:]:
                g.add('l', *p)
            g.add('h')
            g.add(r.choice(PAINT))
        elif k < 0.72:
            # subpath continued after a close
            g.add('re', g.num(), g.num(), dy(r, 1, 50), dy(r, 1, 50))
            g.add('l', g.num(), g.num())
            g.add(r.choice(PAINT))
        else:
            g.path()
    while g.saved:
        g.restore()
    prog = g.prog
    style = Style(r, r.choice((0, 0, 0.5)))
    data = refint.content(prog, style)
    doc.page(data, {})
    pdf = doc.build()
    obs.artifact('in.pdf', pdf)
    obs.artifact('content', data)
    want = refint.Machine(refint.Res()).run(prog)
    got = lib.items(pdf)
    d = refint.compare(want, got, lib, colors=False)
    general = 0
    for w in want:
        obs.count('paths')
        shape = ''.join(s[0] for s in w['segs'])
        obs.distinct('shapes', shape[:12])
        if any(o in shape for o in 'cvy'):
            obs.count('bezier')
        k = w['kinds'][0]
        obs.count({'curve': 'general', 'v': 'line', 'h': 'line'}.get(k, k))
        general += k == 'curve'
    ops = [op for op, a in prog]
    for o in set(ops):
        obs.distinct('operators', o)
    obs.count('unpainted', ops.count('n'))
    obs.count('rotated_matrix', 1 if rotated else 0)
    if want and general:
        obs.nontrivial(data)
    if d:
        raise Violation(d)
