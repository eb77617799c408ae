"""Every shown character is placed where the text operators put it."""
from vlib.harness import Violation
from vlib.pdfgen import Doc, Style
from vlib import lib, refint
from vlib.proggen import Gen, rand_font, font_res, rand_matrix

ID = 'C15'
LEVEL = 'exploration'
RULE = ('random text objects (all text operators, several fonts, transformations before and, between text objects, q/Q); text and box of every character '
        'compared with an independent reference interpreter; non-trivial when two or more characters are shown, counted by distinct program')
ASSUMPTIONS = ['the character box spans the font descent and font box height (font box, or ascent to descent where that is empty)',
               'in vertical writing the character box is centred on the font box width']
CASES = {'quick': 9000, 'thorough': 120000}
MIN = {'characters': 100000, 'shows': 25000, 'adjusted': 8000, 'spaced': 5000, 'scaled': 3000, 'vertical': 2000, 'two_byte': 8000, 'slanted': 3000}


def case(r, i, tier, obs):
    doc = Doc()
    fonts = [rand_font(r, doc, 'F%d' % j) for j in range(r.choice((1, 1, 2, 3)))]
    g = Gen(r, fonts=fonts, colours=False, maxtext=r.choice((3, 8, 25)))
    for _ in range(r.choice((1, 1, 2, 4, 8))):
        k = r.random()
        if k < 0.15:
            g.save()
        elif k < 0.25 and g.saved:
            g.restore()
        if r.random() < 0.4:
            g.add('cm', *rand_matrix(r))
        if r.random() < 0.3:
            # text state set outside a text object stays in force
            g.setfont()
            g.add(r.choice(('Tc', 'Tw', 'Ts', 'TL')), r.choice((0, 1, 2.5, -3)))
        if r.random() < 0.1:
            g.add('BT')
            g.add('ET')
        g.textobj()
    while g.saved:
        g.restore()
    prog = g.prog
    data = refint.content(prog, Style(r, r.choice((0, 0, 0.5))))
    doc.page(data, {'Font': font_res(fonts)})
    pdf = doc.build()
    obs.artifact('in.pdf', pdf)
    obs.artifact('content', data)
    want = refint.Machine(refint.Res({f.name: f for f in fonts})).run(prog)
    got = lib.items(pdf)
    d = refint.compare(want, got, lib, colors=False)
    n = 0
    for b in want:
        for s in b['shows']:
            obs.count('shows')
            n += len(s['chars'])
    ops = [op for op, a in prog]
    obs.count('characters', n)
    for o in set(ops):
        obs.distinct('operators', o)
    obs.count('adjusted', ops.count('TJ'))
    obs.count('spaced', ops.count('Tc') + ops.count('Tw') + ops.count('"'))
    obs.count('scaled', ops.count('Tz'))
    obs.count('slanted', sum(1 for op, a in prog if op in ('Tm', 'cm') and a[1]))
    cur = None
    byname = {f.name.encode(): f for f in fonts}
    for op, a in prog:
        if op == 'Tf':
            cur = byname[a[0].n]
        elif op in ('Tj', "'", '"', 'TJ'):
            if cur.vert:
                obs.count('vertical')
            elif cur.nbytes == 2:
                obs.count('two_byte')
    if n > 1:
        obs.nontrivial(data)
    if d:
        raise Violation(d)
