"""Fonts and names whose text is trouble for output formats."""
from .pdfgen import Name, Stream
from .refint import Font
from .proggen import tounicode, rand_font, LETTERS
from . import encs

NASTY = ['"', "'", '\\', '\\"', '\\n', '\n', '\r', '\t', '\r\n', '\x00', '\x01', '\x08', '\x0b', '\x1f', '\x7f', '\x85', '\xa0', '\u2028', '\u2029',
         '\ufeff', '\ufffe', '\uffff', '\ufffd', '<', '>', '&', '&amp;', '&#60;', '</char>', '<b>', '</span><script>x</script>', '<!--', '-->', ']]>', '<![CDATA[',
         '<?xml ?>', '{', '}', '[', ']', '": 1, "', ': ', '- ', '# ', ' #', '? ', '| ', '> ', '%', '@', '`', '!', '&a', '*a', '---', '...', 'null', 'true', 'yes', '~',
         '0', '1.5', '0x10', '1e3', '.inf', ' ', '  ', '\u00e9', '\u4e2d', '\u05d0', '\U0001f600', '\U0010ffff', '\ue000', '\u202e', 'a\u0301', '=', '$(x)', '%s', '{0}',
         '~', '\x80', '\x9f', '\xff', '\u0100', '\u0100' + '0', '\ud7ff', '\ue000', '\uffee', '\U00010000', '\U00010000' + 'a']


def nasty(r):
    k = r.random()
    if k < 0.7:
        return r.choice(NASTY)
    if k < 0.85:
        return r.choice(NASTY) + r.choice('ab ') + r.choice(NASTY)
    return chr(encs.scalar(r, 0, r.choice((0xff, 0x2fff, 0xffff, 0x10ffff))))


KEYS = ['text', 'x0', 'size', 'color', 'Text', 'type', 'font name', 'font-name', 'Font<Name', 'a"b', "a'b", 'a\\b', 'a:b', '- a', '#k', '1st', 'xmlns', 'xml:id', 'y', 'null',
        'Yes', 'NO', 'True', 'FALSE', 'Null', 'On', 'oFF', 'N', 'Style', 'class', '\u00e9t\u00e9', 'k\n', 'Family\x01', 'onclick', '{', '[', '*', '&', '!']


def nasty_bytes(r):
    s = ''.join(nasty(r) for _ in range(r.choice((1, 2)))).replace('\x00', '\x01')
    return s.encode('utf-8') if r.random() < 0.8 else bytes(r.randrange(1, 256) for _ in range(r.choice((1, 5))))


def hostile_font(r, doc, name):
    """Simple font whose ToUnicode map, name and descriptor are trouble."""
    if r.random() < 0.25:
        return rand_font(r, doc, name)
    codes = list(LETTERS) + list(b' ()\\')
    m = {c: (nasty(r) if r.random() < 0.6 else chr(c)) for c in codes}
    fname = Name(nasty_bytes(r)) if r.random() < 0.5 else Name('F%d' % r.randrange(100))
    d = {'Type': Name('FontDescriptor'), 'FontName': fname, 'Flags': 32, 'Ascent': 800, 'Descent': -200, 'FontBBox': [0, -200, 1000, 800],
         'ItalicAngle': r.choice((0, -12, 7.5)), 'MissingWidth': 500}
    for _ in range(r.choice((0, 1, 1, 3))):
        k = r.choice(KEYS).encode('utf-8') if r.random() < 0.9 else nasty_bytes(r)
        d[Name(k)] = r.choice((1, 2.5, True, None, [1, 2], nasty_bytes(r), Name(nasty_bytes(r)), {'A': nasty_bytes(r)}, 1e-7, -0.00000012))
    if r.random() < 0.04:
        # a long descriptor
        d.update({Name(b'Extra%d' % j): r.choice((j, b'x%d' % j)) for j in range(r.choice((20, 60)))})
    if r.random() < 0.3:
        d['FontFamily'] = nasty_bytes(r)
    if r.random() < 0.2:
        d['FontWeight'] = r.choice((400, 700, 900))
    if r.random() < 0.1:
        d['FontFile3'] = doc.add(Stream({'Subtype': Name('Type1C')}, b'\x01\x00\x04\x01'))
    spec = {'Type': Name('Font'), 'Subtype': Name('TrueType'), 'BaseFont': fname, 'FirstChar': 32, 'LastChar': 34, 'Widths': [250, 300, 400],
            'Encoding': Name('WinAnsiEncoding'), 'FontDescriptor': doc.add(d) if r.random() < 0.6 else d, 'ToUnicode': doc.add(tounicode(m.items(), 1))}
    return Font(name, spec if r.random() < 0.3 else doc.add(spec), {32: 250, 33: 300, 34: 400}, 500, -200, 1000, lambda c: m[c], fontname=None)
