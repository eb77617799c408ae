"""Encodings and glyph names, written down independently of the library."""
import unicodedata


def _codec(name, skip, over):
    d = {}
    for c in range(32, 256):
        if c in skip or c == 127:
            continue
        try:
            d[c] = bytes((c,)).decode(name)
        except UnicodeDecodeError:
            continue
    d.update(over)
    return d


# value: acceptable texts
WIN = _codec('cp1252', (), {160: ' ', 173: '-'})
MAC = _codec('mac_roman', (173, 176, 178, 179, 182, 183, 184, 185, 186, 189, 195, 197, 198, 215, 240), {202: ' ', 219: '\xa4'})

STD = {c: chr(c) for c in range(32, 127)}
STD.update({39: '\u2019', 96: '\u2018'})
STD.update(zip(range(161, 176), '\xa1\xa2\xa3\u2044\xa5\u0192\xa7\xa4\'\u201c\xab\u2039\u203a\ufb01\ufb02'))
STD.update({177: '\u2013', 178: '\u2020', 179: '\u2021', 180: '\xb7', 182: '\xb6', 183: '\u2022', 184: '\u201a', 185: '\u201e',
            186: '\u201d', 187: '\xbb', 188: '\u2026', 189: '\u2030', 191: '\xbf', 193: '`', 194: '\xb4', 195: '\u02c6',
            196: '\u02dc', 197: '\xaf', 198: '\u02d8', 199: '\u02d9', 200: '\xa8', 202: '\u02da', 203: '\xb8', 205: '\u02dd',
            206: '\u02db', 207: '\u02c7', 208: '\u2014', 225: '\xc6', 227: '\xaa', 232: '\u0141', 233: '\xd8', 234: '\u0152',
            235: '\xba', 241: '\xe6', 245: '\u0131', 248: '\u0142', 249: '\xf8', 250: '\u0153', 251: '\xdf'})

BASE = {'WinAnsiEncoding': WIN, 'MacRomanEncoding': MAC, 'StandardEncoding': STD}


def _names():
    n = {}
    for c in range(65, 91):
        n[chr(c)] = chr(c)
        n[chr(c + 32)] = chr(c + 32)
    for w, c in zip('zero one two three four five six seven eight nine'.split(), '0123456789'):
        n[w] = c
    n.update({'space': ' ', 'exclam': '!', 'quotedbl': '"', 'numbersign': '#', 'dollar': '$', 'percent': '%', 'ampersand': '&',
              'quotesingle': "'", 'parenleft': '(', 'parenright': ')', 'asterisk': '*', 'plus': '+', 'comma': ',', 'hyphen': '-',
              'period': '.', 'slash': '/', 'colon': ':', 'semicolon': ';', 'less': '<', 'equal': '=', 'greater': '>', 'question': '?',
              'at': '@', 'bracketleft': '[', 'backslash': '\\', 'bracketright': ']', 'asciicircum': '^', 'underscore': '_',
              'grave': '`', 'braceleft': '{', 'bar': '|', 'braceright': '}', 'asciitilde': '~', 'exclamdown': '\xa1', 'cent': '\xa2',
              'sterling': '\xa3', 'currency': '\xa4', 'yen': '\xa5', 'brokenbar': '\xa6', 'section': '\xa7', 'dieresis': '\xa8',
              'copyright': '\xa9', 'ordfeminine': '\xaa', 'guillemotleft': '\xab', 'logicalnot': '\xac', 'registered': '\xae',
              'macron': '\xaf', 'degree': '\xb0', 'plusminus': '\xb1', 'acute': '\xb4', 'paragraph': '\xb6', 'periodcentered': '\xb7',
              'cedilla': '\xb8', 'ordmasculine': '\xba', 'guillemotright': '\xbb', 'onequarter': '\xbc', 'onehalf': '\xbd',
              'threequarters': '\xbe', 'questiondown': '\xbf', 'multiply': '\xd7', 'divide': '\xf7', 'AE': '\xc6', 'ae': '\xe6',
              'Oslash': '\xd8', 'oslash': '\xf8', 'germandbls': '\xdf', 'Eth': '\xd0', 'eth': '\xf0', 'Thorn': '\xde', 'thorn': '\xfe',
              'Lslash': '\u0141', 'lslash': '\u0142', 'OE': '\u0152', 'oe': '\u0153', 'dotlessi': '\u0131', 'florin': '\u0192',
              'endash': '\u2013', 'emdash': '\u2014', 'quoteleft': '\u2018', 'quoteright': '\u2019', 'quotesinglbase': '\u201a',
              'quotedblleft': '\u201c', 'quotedblright': '\u201d', 'quotedblbase': '\u201e', 'dagger': '\u2020', 'daggerdbl': '\u2021',
              'bullet': '\u2022', 'ellipsis': '\u2026', 'perthousand': '\u2030', 'guilsinglleft': '\u2039', 'guilsinglright': '\u203a',
              'fraction': '\u2044', 'Euro': '\u20ac', 'trademark': '\u2122', 'minus': '\u2212', 'fi': '\ufb01', 'fl': '\ufb02',
              'Hbar': '\u0126', 'hbar': '\u0127', 'Dcroat': '\u0110', 'dcroat': '\u0111', 'Tbar': '\u0166', 'tbar': '\u0167',
              'infinity': '\u221e', 'notequal': '\u2260', 'lessequal': '\u2264', 'greaterequal': '\u2265', 'partialdiff': '\u2202',
              'summation': '\u2211', 'radical': '\u221a', 'integral': '\u222b', 'approxequal': '\u2248', 'lozenge': '\u25ca'})
    acc = {'GRAVE': 'grave', 'ACUTE': 'acute', 'CIRCUMFLEX': 'circumflex', 'DIAERESIS': 'dieresis', 'TILDE': 'tilde', 'CARON': 'caron',
           'MACRON': 'macron', 'BREVE': 'breve', 'OGONEK': 'ogonek', 'RING ABOVE': 'ring', 'DOUBLE ACUTE': 'hungarumlaut'}
    for c in range(0xc0, 0x180):
        w = unicodedata.name(chr(c), '').split(' WITH ')
        if len(w) == 2 and w[1] in acc and w[0].startswith('LATIN ') and ' LETTER ' in w[0]:
            b = w[0].split()[-1]
            if len(b) == 1:
                n[(b if 'CAPITAL' in w[0] else b.lower()) + acc[w[1]]] = chr(c)
    n['Ccedilla'], n['ccedilla'], n['Scedilla'], n['scedilla'] = '\xc7\xe7\u015e\u015f'
    for c in list(range(0x391, 0x3aa)) + list(range(0x3b1, 0x3ca)):
        u = unicodedata.name(chr(c), '')
        if ' FINAL ' in u or not u:
            continue
        g = u.split()[-1].replace('LAMDA', 'LAMBDA')
        g = g.capitalize() if 'CAPITAL' in u else g.lower()
        if g not in ('Omega', 'Delta', 'mu'):
            n[g] = chr(c)
    for i in range(33):
        # Cyrillic: the letter io stands seventh
        u = [0x410 + k for k in range(6)] + [0x401] + [0x416 + k for k in range(26)]
        n['afii%d' % (10017 + i)] = chr(u[i])
        v = [0x430 + k for k in range(6)] + [0x451] + [0x436 + k for k in range(26)]
        n['afii%d' % (10065 + i)] = chr(v[i])
    return n


NAMES = _names()
LIST = sorted(NAMES)


def scalar(r, lo=0x20, hi=0xffff):
    while True:
        u = r.randrange(lo, hi + 1)
        if not 0xd800 <= u <= 0xdfff:
            return u


def glyph(r):
    """-> (glyph name, text, kind)"""
    k = r.random()
    if k < 0.6:
        g = r.choice(LIST)
        return g, NAMES[g], 'agl'
    if k < 0.75:
        us = [scalar(r) for _ in range(r.choice((1, 1, 1, 2, 3)))]
        return 'uni' + ''.join('%04X' % u for u in us), ''.join(map(chr, us)), 'uni'
    if k < 0.87:
        u = scalar(r, 0x20, r.choice((0xffff, 0x10ffff)))
        return 'u%0*X' % (r.choice((4, 5, 6)) if u < 0x10000 else 5, u), chr(u), 'u'
    if k < 0.93:
        g = r.choice(LIST)
        return g + '.' + r.choice(('alt', 'sc', 'swash', '001', 'a.b')), NAMES[g], 'suffix'
    gs = [r.choice(LIST) for _ in range(r.choice((2, 2, 3, 3, 4, 7)))]
    return '_'.join(gs), ''.join(NAMES[g] for g in gs), 'ligature'


HELVETICA = dict(zip(range(32, 127), (
    278, 278, 355, 556, 556, 889, 667, 191, 333, 333, 389, 584, 278, 333, 278, 278, 556, 556, 556, 556, 556, 556, 556, 556, 556, 556,
    278, 278, 584, 584, 584, 556, 1015, 667, 667, 722, 722, 667, 611, 778, 722, 278, 500, 667, 556, 833, 722, 778, 667, 778, 722, 667,
    611, 722, 667, 944, 667, 667, 611, 278, 278, 278, 469, 556, 333, 556, 556, 500, 556, 556, 278, 556, 556, 222, 222, 500, 222, 833,
    556, 556, 556, 556, 333, 500, 278, 556, 500, 722, 500, 500, 500, 334, 260, 334, 584)))
TIMES = dict(zip(range(32, 127), (
    250, 333, 408, 500, 500, 833, 778, 180, 333, 333, 500, 564, 250, 333, 250, 278, 500, 500, 500, 500, 500, 500, 500, 500, 500, 500,
    278, 278, 564, 564, 564, 444, 921, 722, 667, 667, 722, 611, 556, 722, 722, 333, 389, 722, 611, 889, 722, 722, 556, 722, 667, 556,
    611, 722, 722, 944, 722, 722, 611, 333, 278, 333, 469, 500, 333, 444, 500, 444, 500, 444, 333, 500, 500, 278, 278, 500, 278, 778,
    500, 500, 500, 500, 333, 389, 278, 500, 500, 722, 500, 500, 444, 480, 200, 480, 541)))
assert len(HELVETICA) == len(TIMES) == 95
# name -> (widths by character, descent, height of the font box)
STANDARD = {'Courier': {c: 600 for c in range(32, 127)}, 'Courier-Bold': {c: 600 for c in range(32, 127)},
            'Helvetica': HELVETICA, 'Times-Roman': TIMES}
