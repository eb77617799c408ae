"""Save and restore bring back the whole graphics state."""
from vlib.harness import Violation
from vlib.pdfgen import Doc, Style
from vlib import lib, refint
from vlib.proggen import Gen, colour_spaces, font_res, simple_font

ID = 'C13'
LEVEL = 'exploration'
RULE = ('random operator programs over q Q cm w and all colour operators with painted paths and text in between; every painted object compared with an '
        'independent reference interpreter; non-trivial when at least one object is painted after a Q that undoes something, counted by distinct program')
ASSUMPTIONS = ['initial line width and colours are those the library reports for an object painted before any state operator']
CASES = {'quick': 3500, 'thorough': 60000}
MIN = {'objects': 12000, 'restores': 5000, 'matched_known': 0, 'spaces': 2000, 'rotated': 500}
KEY = 'q-restore'


def case(r, i, tier, obs):
    doc = Doc()
    sd, sm = colour_spaces(r, doc)
    fonts = [simple_font(r, doc, 'F0')] if r.random() < 0.3 else []
    g = Gen(r, fonts=fonts, spaces=sm, maxtext=4, qdepth=r.choice((1, 3, 10, 60)))
    deep = r.random() < 0.03
    if deep:
        for _ in range(60):
            g.save()
            g.add('cm', 1, 0, 0, 1, 1, 1)
    prog = g.run(r.choice((5, 15, 40, 80)))
    g2 = Gen(r, colours=False)
    g2.prog = prog
    g2.path()
    box = r.choice(((0, 0, 612, 792), (0, 0, 612, 792), (-20, 10, 500, 700.5), (500, 10, -20, 700.5), (500, 700.5, -20, 10), (-20, 700.5, 500, 10)))
    rot = r.choice((0, 0, 0, 90, 180, 270))
    style = Style(r, r.choice((0, 0, 0.5)))
    data = refint.content(prog, style)
    res = {'ColorSpace': sd, 'Font': font_res(fonts)}
    doc.page(data, res, mediabox=box, Rotate=rot)
    pdf = doc.build()
    obs.artifact('in.pdf', pdf)
    obs.artifact('content', data)
    x0, y0, x1, y1 = min(box[0], box[2]), min(box[1], box[3]), max(box[0], box[2]), max(box[1], box[3])  # any two opposite corners
    ctm = {0: (1, 0, 0, 1, -x0, -y0), 90: (0, -1, 1, 0, -y0, x1), 180: (-1, 0, 0, -1, x1, y1), 270: (0, 1, -1, 0, y1, -x0)}[rot]
    R = refint.Res({f.name: f for f in fonts}, sm)
    want = refint.Machine(R, ctm, LW).run(prog)
    got = lib.items(pdf)
    d = refint.compare(want, got, lib)
    obs.count('objects', len(want))
    obs.count('restores', sum(1 for op, a in prog if op == 'Q'))
    obs.count('spaces', sum(1 for op, a in prog if op in ('cs', 'CS')))
    obs.count('rotated', 1 if rot else 0)
    if any(op == 'Q' for op, a in prog) and want:
        obs.nontrivial(data)
    if d:
        leak = refint.compare(refint.Machine(R, ctm, LW, q_leaks=True).run(prog), got, lib)
        if leak is None:
            obs.count('matched_known')
            raise Violation('Q does not bring back line width and colours: ' + d, KEY)
        raise Violation('%s (with line width and colours left by Q: %s)' % (d, leak))


LW = 0


def setup():
    global LW
    doc = Doc()
    doc.page(b'0 0 m 5 5 l S', {})
    i = lib.items(doc.build())[0]
    LW = i.linewidth
