"""Planted bugs: edits of original lines, a demonstration, and what they need."""
BUGS = []

def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

P = 'pdfmajor/'
PS = P + 'parser/PSStackParser/'
DOC = P + 'parser/PDFDocument/'
STR = P + 'parser/PDFStream/'
CMD = P + 'interpreter/commands/'
ST = CMD + 'state/'
TXT = ST + 'PDFTextState/'
FONT = TXT + 'PDFFont/'
GS = ST + 'PDFGraphicState/'
LAY = ST + 'layout/'

# ---------------------------------------------------------------- C01
bug('c01-paren-depth', 'C01', [(PS + 'PSBaseParser.py', "            self.paren += 1\n", "            self.paren = 2\n")],
    '''
d = doc(build({1: b'<</Type/Catalog/V(a(b)c)/W(a(b(c)d)e)>>'}))
check('strings', (d.getobj(1)['V'], d.getobj(1).get('W')), (b'a(b)c', b'a(b(c)d)e'))
''', 'a literal string with parentheses nested at least two deep', 'such a string ends one parenthesis early')

bug('c01-objstm-dict', 'C01', [(P + 'parser/PDFParser.py', """        elif token in (self.KEYWORD_OBJ, self.KEYWORD_ENDOBJ):
            if settings.STRICT:""", """        elif token in (self.KEYWORD_OBJ, self.KEYWORD_ENDOBJ) or token.name in (b'R', b'n'):
            if settings.STRICT:"""),
    (P + 'parser/PDFParser.py', """                obj = PDFObjRef(self.doc, objid, genno)
                self.push((pos, obj))
            except (PSSyntaxError, TypeError, ValueError, OverflowError):
                pass
            return
        elif token is self.KEYWORD_NULL:""", """                if genno > 0:
                    self.push((pos, objid))
                    return
                obj = PDFObjRef(self.doc, objid, genno)
                self.push((pos, obj))
            except (PSSyntaxError, TypeError, ValueError, OverflowError):
                pass
            return
        elif token is self.KEYWORD_NULL:""")],
    '''
from pdfmajor.parser.PDFStream import resolve1
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.parser.PDFParser import PDFStreamParser
class D:
    def getobj(self, n): return 'object %d' % n
p = PDFStreamParser(b'[7 1 R 8 0 R] ')
p.set_document(D())
v = p.nextobject()[1]
check('references', [resolve1(x) for x in v], ['object 7', 'object 8'])
''', 'an object stream holding a reference with a generation number above zero', 'the reference is replaced by its object number')

# ---------------------------------------------------------------- C02
bug('c02-real-split', 'C02', [(PS + 'PSBaseParser.py', """    def _parse_float(self, s, i):
        m = END_NUMBER.search(s, i)
        if not m:
            self._curtoken += s[i:]
            return len(s)""", """    def _parse_float(self, s, i):
        m = END_NUMBER.search(s, i)
        if not m:
            if not self._curtoken.endswith(b'.'):
                self._curtoken = s[i:]
            else:
                self._curtoken += s[i:]
            return len(s)""")],
    '''
from pdfmajor.parser.PDFParser import PDFStreamParser
p = PDFStreamParser(b'[.' + b'1' * 20 + b'0' * 9000 + b'] ')
check('real', p.nextobject()[1], [0.11111111111111111111])
''', 'a real number longer than two read blocks', 'the digits of the earlier block are dropped')

bug('c03-default-type', 'C03', [(DOC + 'PDFXRef.py', """        f1 = nunpack(ent[:self.fl1], 1)
        f2 = nunpack(ent[self.fl1:self.fl1+self.fl2])""", """        f1 = nunpack(ent[:self.fl1], 1 if self.fl3 else 0)
        f2 = nunpack(ent[self.fl1:self.fl1+self.fl2])""")],
    '''
objs = {1: b'<</Type/Catalog/V 3 0 R>>', 3: b'(three)'}
out = bytearray(b'%PDF-1.7\\n'); off = {}
for n, b in objs.items():
    off[n] = len(out); out += b'%d 0 obj\\n' % n + b + b'\\nendobj\\n'
x = len(out)
off[4] = x
ents = b''.join(off[n].to_bytes(2, 'big') for n in (1, 3, 4))
out += b'4 0 obj\\n' + stream(ents, b'/Type/XRef/Size 5/W[0 2 0]/Index[1 1 3 2]/Root 1 0 R') + b'\\nendobj\\nstartxref\\n%d\\n%%%%EOF\\n' % x
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFDocument import PDFDocument
d = PDFDocument(PDFParser(io.BytesIO(bytes(out))), fallback=False)
check('object', d.getobj(3), b'three')
''', 'a cross-reference stream that leaves out both the type and the generation field', 'its objects count as free')

bug('c03-second-range', 'C03', [(DOC + 'PDFXRef.py', """            if start <= objid and objid < start+nobjs:
                index += objid - start
                break""", """            if start <= objid and objid <= start+nobjs:
                index += objid - start
                break""")],
    '''
objs = {1: b'<</Type/Catalog/V 3 0 R>>', 3: b'(three)', 5: b'(five)'}
out = bytearray(b'%PDF-1.7\\n'); off = {}
for n, b in objs.items():
    off[n] = len(out); out += b'%d 0 obj\\n' % n + b + b'\\nendobj\\n'
x = len(out)
off[4] = x
e = lambda n: b'\\1' + off[n].to_bytes(2, 'big') + b'\\0'
ents = b''.join(e(n) for n in (3, 4, 1, 5))
out += b'4 0 obj\\n' + stream(ents, b'/Type/XRef/Size 6/W[1 2 1]/Index[3 2 1 1 5 1]/Root 1 0 R') + b'\\nendobj\\nstartxref\\n%d\\n%%%%EOF\\n' % x
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFDocument import PDFDocument
d = PDFDocument(PDFParser(io.BytesIO(bytes(out))), fallback=False)
check('objects', (d.getobj(3), d.getobj(5)), (b'three', b'five'))
''', 'a cross-reference stream whose sections are not in ascending order and touch', 'the object after a section is read from the next entry')

# ---------------------------------------------------------------- C04
bug('c04-last-definition', 'C04', [(DOC + 'PDFXRef.py', "            self.offsets[objid] = (None, pos, genno)\n            # expand", "            self.offsets.setdefault(objid, (None, pos, genno))\n            # expand")],
    '''
a = build({1: b'<</Type/Catalog>>', 2: b'(old)'})
prev = int(a[a.rindex(b'startxref'):].split()[1])
pos = len(a)
b = a + b'2 0 obj\\n(new)\\nendobj\\n'
x = len(b)
b += b'xref\\n2 1\\n%010d 00000 n \\ntrailer\\n<</Size 3/Root 1 0 R/Prev %d>>\\nstartxref\\n%d\\n%%%%EOF\\n' % (pos, prev, x)
check('intact', doc(b).getobj(2), b'new')
check('without startxref', doc(b.replace(b'startxref', b'xxxxxxxxx')).getobj(2), b'new')
''', 'a damaged file with an updated object', 'the object comes back with its first definition')

# ---------------------------------------------------------------- C05

# ---------------------------------------------------------------- C06
bug('c06-lzw-stale-width', 'C06', [(P + 'utils/lzw.py', "            self.prevbuf = b''\n            self.nbits = 9", "            self.prevbuf = b''\n            self.nbits = min(self.nbits, 11) if self.nbits > 9 and not self.early else 9")],
    '''
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pdfmajor.utils.lzw import lzwdecode
def enc(data, early):
    bits = []
    out = lambda c, n: bits.extend((c >> i) & 1 for i in range(n - 1, -1, -1))
    table = {bytes([i]): i for i in range(256)}; nxt = 258; n = 9
    out(256, n); w = b''
    for k, c in enumerate(data):
        c = bytes([c])
        if w + c in table: w += c; continue
        out(table[w], n); table[w + c] = nxt; nxt += 1
        if nxt + early > (1 << n) and n < 12: n += 1
        w = c
        if nxt > 4000 or k == 1500:
            out(table[w], n); w = b''
            nn = n
            if nxt + 1 + early > (1 << n) and n < 12: nn = n + 1
            out(256, nn); table = {bytes([i]): i for i in range(256)}; nxt = 258; n = 9
    out(table[w], n)
    if nxt + 1 + early > (1 << n) and n < 12: n += 1
    out(257, n)
    while len(bits) % 8: bits.append(0)
    return bytes(int(''.join(map(str, bits[i:i+8])), 2) for i in range(0, len(bits), 8))
import random
r = random.Random(1)
data = bytes(r.randrange(256) for _ in range(3000))
for e in (1, 0):
    check('early %d' % e, lzwdecode(enc(data, e), e) == data, True)
''', 'EarlyChange 0 and a clear code after the code width has grown', 'codes after the clear are read with the wrong width')

bug('c06-a85-partial', 'C06', [(P + 'utils/ascii85.py', "                for _ in range(5-n):\n                    b = b*85+84\n", "                b = b*85**(5-n) + (84 if n > 2 else 85**(5-n)-1)\n")],
    '''
import base64
from pdfmajor.utils.ascii85 import ascii85decode
for k in range(1, 9):
    for fill in (0, 0x41, 0xff, 0x80, 7):
        d = bytes((fill + 37 * i * (fill % 3)) % 256 for i in range(k))
        check(d, ascii85decode(base64.a85encode(d) + b'~>'), d)
''', 'a final group of three or four characters whose bytes depend on the padding', 'its last byte comes out too small')

bug('c06-param-align', 'C06', [(STR + '__init__.py', """        for (f,params) in filters:
            if f in LITERALS_FLATE_DECODE:""", """        for (f,params) in filters:
            params = params or filters[-1][1]
            if f in LITERALS_FLATE_DECODE:""")],
    '''
import zlib
from pdfmajor.parser.PDFStream import PDFStream
rows = b'\\2' + b'abcd' + b'\\2' + b'\\1\\1\\1\\1'
data = zlib.compress(rows)
data = data.hex().encode() + b'>'
d = doc(build({1: b'<</Type/Catalog>>', 2: stream(data, b'/Filter[/ASCIIHexDecode/FlateDecode]/DecodeParms[null<</Predictor 12/Columns 4>>]')}))
check('data', d.getobj(2).get_data(), b'abcdbcde')
''', 'a chain whose first filter has null parameters and whose last has a predictor', 'the predictor is applied twice')

# ---------------------------------------------------------------- C07
bug('c07-colors-bits', 'C07', [(STR + '__init__.py', "                    colors = int_value(params.get('Colors', 1))", "                    colors = min(int_value(params.get('Colors', 1)), 4)")],
    '''
import zlib
rows = b''.join(b'\\1' + bytes([1, 2, 3, 4, 5] * 2) for _ in range(2))
d = doc(build({1: b'<</Type/Catalog>>', 2: stream(zlib.compress(rows), b'/Filter/FlateDecode/DecodeParms<</Predictor 15/Colors 5/Columns 2>>')}))
check('data', d.getobj(2).get_data(), bytes([1, 2, 3, 4, 5, 2, 4, 6, 8, 10] * 2))
''', 'five or more colour components per pixel', 'row size and neighbour distance are wrong')

bug('c07-predictor-kind', 'C07', [(STR + '__init__.py', "                elif 10 <= pred:\n", "                elif 10 < pred:\n")],
    '''
import zlib
d = doc(build({1: b'<</Type/Catalog>>', 2: stream(zlib.compress(b'\\0abc\\1\\1\\1\\1'), b'/Filter/FlateDecode/DecodeParms<</Predictor 10/Columns 3>>')}))
check('data', d.getobj(2).get_data(), b'abc\\1\\2\\3')
''', 'Predictor 10', 'refused as unsupported')

# ---------------------------------------------------------------- C08

# ---------------------------------------------------------------- C09
bug('c09-objid-24', 'C09', [(DOC + 'PDFSecurityHandler.py', """        key = self.key + struct.pack('<L', objid)[:3] + struct.pack('<L', genno)[:2] + b'sAlT'""", """        key = self.key + struct.pack('<L', objid & 0xffff)[:3] + struct.pack('<L', genno)[:2] + b'sAlT'""")],
    '''
import hashlib
from Crypto.Cipher import AES
from pdfmajor.parser.PDFDocument.PDFSecurityHandler import PDFStandardSecurityHandlerV4 as H
h = H.__new__(H)
h.key = b'0123456789abcdef'
for n in (5, 300, 70000, 0x123456):
    k = hashlib.md5(h.key + n.to_bytes(3, 'little') + b'\\0\\0' + b'sAlT').digest()
    e = b'i' * 16 + AES.new(k, AES.MODE_CBC, IV=b'i' * 16).encrypt(b'hello' + bytes([11]) * 11)
    check('object %d' % n, h.decrypt_aes128(n, 0, e), b'hello')
''', 'AES-128 and an object number above 65535', 'its strings and streams are decrypted with another key')

bug('c09-owner-rev2', 'C09', [(DOC + 'PDFSecurityHandler.py', """        if self.r == 2:
            user_password = ARC4.new(key).decrypt(self.o)""", """        if self.r == 2:
            user_password = ARC4.new(key).decrypt(self.o).rstrip(b'z')""")],
    '''
import hashlib
from Crypto.Cipher import ARC4
from pdfmajor.parser.PDFDocument.PDFSecurityHandler import PDFStandardSecurityHandler as H
PAD = H.PASSWORD_PADDING
def make(user, owner):
    pu, po = (user + PAD)[:32], (owner + PAD)[:32]
    o = ARC4.new(hashlib.md5(po).digest()[:5]).encrypt(pu)
    k = hashlib.md5(pu + o + (0xfffffffc).to_bytes(4, 'little') + b'id').digest()[:5]
    return {'V': 1, 'R': 2, 'P': -4, 'O': o, 'U': ARC4.new(k).encrypt(PAD)}
for user in (b'user', b'x' * 31 + b'q', b'a' * 32, b'y' * 31 + b'z'):
    H([b'id', b'id'], make(user, b'owner'), 'owner')
''', 'revision 2, the owner password and a padded user password that ends in z (padding, or 32 characters)', 'the owner password is refused')

bug('c09-metadata', 'C09', [(DOC + 'PDFSecurityHandler.py', """        if self.r >= 4:
            if not self.encrypt_metadata:
                hash.update""", """        if self.r >= 4:
            if not self.encrypt_metadata and self.docid[0]:
                hash.update""")],
    '''
import hashlib
from Crypto.Cipher import ARC4
from pdfmajor.parser.PDFDocument.PDFSecurityHandler import PDFStandardSecurityHandlerV4 as H
from pdfmajor.parser.PSStackParser import LIT
PAD = H.PASSWORD_PADDING
def make(user, docid):
    o = b'o' * 32
    k = hashlib.md5((user + PAD)[:32] + o + (0xfffffffc).to_bytes(4, 'little') + docid + b'\\xff' * 4).digest()
    for _ in range(50): k = hashlib.md5(k).digest()
    u = ARC4.new(k).encrypt(hashlib.md5(PAD + docid).digest())
    for i in range(1, 20): u = ARC4.new(bytes(c ^ i for c in k)).encrypt(u)
    return {'V': 4, 'R': 4, 'P': -4, 'O': o, 'U': u + u, 'Length': 128, 'EncryptMetadata': False, 'StmF': LIT('S'), 'StrF': LIT('S'), 'CF': {'S': {'CFM': LIT('V2')}}}
for i in (b'id', b''):
    H([i, i], make(b'u', i), 'u')
''', 'unencrypted metadata together with an empty file identifier', 'the right password is refused')

# ---------------------------------------------------------------- C10
bug('c10-prefix', 'C10', [(DOC + 'PDFSecurityHandler.py', "        return u[:16] == self.u[:16]", "        return u[:16].startswith(self.u[:16].rstrip(b'\\0'))")],
    '''
import hashlib
from Crypto.Cipher import ARC4
from pdfmajor.execptions import PDFPasswordIncorrect
from pdfmajor.parser.PDFDocument.PDFSecurityHandler import PDFStandardSecurityHandler as H
for u in (b'\\0' * 32, b'\\0' * 16 + b'x' * 16, b'u' * 32):
    try:
        H([b'id', b'id'], {'V': 2, 'R': 3, 'P': -4, 'Length': 128, 'O': b'o' * 32, 'U': u}, 'guess')
    except PDFPasswordIncorrect:
        continue
    check('wrong password', 'accepted', 'refused')
''', 'a password check value that is blank', 'every password is accepted')

bug('c10-extract-bit', 'C10', [(DOC + 'PDFSecurityHandler.py', "        return bool(self.p & 16)", "        return bool(self.p & (16 if self.r < 4 else 16 | 512))")],
    '''
from pdfmajor.parser.PDFDocument.PDFSecurityHandler import PDFStandardSecurityHandler as H
h = H.__new__(H)
for r in (2, 3, 4, 5):
    for p, e in ((-4, True), (-4 & ~16, False), (-4 & ~16 & ~512, False)):
        h.p, h.r = p, r
        check((r, p), h.is_extractable(), e)
''', 'revision 4 or 5, extraction forbidden but extraction for accessibility allowed', 'extraction is reported as allowed')

# ---------------------------------------------------------------- C11
bug('c11-rotate-neg', 'C11', [(P + 'parser/PDFPage.py', "        self.rotate = (int_value(self.attrs.get('Rotate', 0))+360) % 360", "        self.rotate = abs(int_value(self.attrs.get('Rotate', 0))) % 360")],
    '''
from pdfmajor.parser.PDFPage import PDFPage
for v, e in ((90, 90), (450, 90), (-90, 270), (-180, 180), (0, 0)):
    d = onepage(b'', page=b'/Rotate %d' % v)
    check(v, next(PDFPage.get_pages(io.BytesIO(d))).rotate, e)
''', 'a negative rotation', 'the page is turned the other way')

# ---------------------------------------------------------------- C12
bug('c12-dests-order', 'C12', [(DOC + '__init__.py', "            if name not in d0:\n                raise PDFDestinationNotFound(name)\n            obj = d0[name]", "            if d0.get(name) is None or 'D' in self.catalog:\n                raise PDFDestinationNotFound(name)\n            obj = d0[name]\n            while isinstance(obj, dict) and 'D' in obj:\n                obj = obj['D']")],
    '''
d = doc(build({1: b'<</Type/Catalog/Dests<</a[1 2]/b<</D[3 4]/X 1>>>>>>'}))
check('dests', (d.get_dest('a'), d.get_dest('b')), ([1, 2], {'D': [3, 4], 'X': 1}))
''', 'an old style destination given as a dictionary', 'only a part of it is returned')

# ---------------------------------------------------------------- C13
bug('c13-copy-dash', 'C13', [(GS + '__init__.py', "        obj.linewidth   = self.linewidth\n", "        obj.linewidth   = self.linewidth or 1\n")],
    '''
from itertools import chain
i = items(onepage(b'0 w q 0 0 m 9 9 l S Q'))
check('line width', i[0].linewidth, 0)
''', 'line width zero in force when a path is painted', 'reported as one')

bug('c13-rg-round', 'C13', [(CMD + 'commands.py', """    stack.graphics.set_nostroke_color(
        stack.colorspace_map['DeviceRGB'], 
        round(r*255), """, """    stack.graphics.set_nostroke_color(
        stack.colorspace_map['DeviceRGB'], 
        round(r*255) or stack.graphics.scolor.values and stack.graphics.scolor.values[0] or 0, """)],
    '''
i = items(onepage(b'1 0 0 RG 0 1 0 rg 0 0 9 9 re B'))
check('fill', tuple(i[0].fill.values), (0, 255, 0))
''', 'a stroke colour set before a fill colour without red', 'the red of the stroke colour gets into the fill')

bug('c13-cs-page', 'C13', [(CMD + 'utils.py', "                state.colorspace_map[csid] = get_colorspace(resolve1(spec))", "                state.colorspace_map.setdefault(csid, get_colorspace(resolve1(spec)))")],
    '''
extra = {6: stream(b'0 1 0 rg', b'/N 4')}
i = items(onepage(b'/CalRGB cs .1 .2 .3 .4 sc 0 0 9 9 re f', resources=b'<</ColorSpace<</CalRGB[/ICCBased 6 0 R]>>>>', extra=extra))
check('fill', tuple(i[0].fill.values), (.1, .2, .3, .4))
''', 'a colour space resource named like a built-in one', 'the built-in one is used instead')

# ---------------------------------------------------------------- C14
bug('c14-v-point', 'C14', [(CMD + 'commands.py', """        CurvePath.METHOD.CURVE_NEXT_TO, 
        CurvePoint(stack.t_matrix, x2, y2), 
        CurvePoint(stack.t_matrix, x3, y3),""", """        CurvePath.METHOD.CURVE_NEXT_TO, 
        CurvePoint(stack.t_matrix, x3, y3), 
        CurvePoint(stack.t_matrix, x2, y2),""")],
    '''
i = items(onepage(b'0 0 m 5 20 10 10 v S'))
p = i[0].paths[1]
check('segment', [(q.x, q.y) for q in p.points], [(5, 20), (10, 10)])
''', 'the curve operator v', 'its control and end point are exchanged')

bug('c14-line-rotated', 'C14', [(LAY + '__init__.py', """        if x0 == x1:
            return LTVerticalLine(""", """        if pt0.x == pt1.x:
            return LTVerticalLine(""")],
    '''
i = items(onepage(b'0 0 m 0 9 l S q 0 1 -1 0 0 0 cm 0 0 m 0 9 l S Q'))
check('lines', [type(x).__name__ for x in i], ['LTVerticalLine', 'LTHorizontalLine'])
''', 'a vertical line under a rotation', 'a horizontal line is reported as vertical')

# ---------------------------------------------------------------- C15
bug('c15-td-leading', 'C15', [(CMD + 'commands.py', "    stack.text.leading = ty\n    stack.text.linematrix = [0, 0]\n", "    stack.text.leading = ty*d if ty else stack.text.leading\n    stack.text.linematrix = [0, 0]\n")],
    '''
i = items(onepage(b'BT /F 10 Tf 2 0 0 2 100 100 Tm 0 -7 TD (a) Tj T* (b) Tj ET'))
a, b = [box(c) for blk in i[0] for c in blk]
check('line distance', round(a[1] - b[1], 6), 14)
''', 'TD under a text matrix that scales', 'the next line is too far away')

bug('c15-wordspace', 'C15', [(LAY + 'utils/textdecoder.py', "                if cid == 32 and textstate.wordspace:", "                if text == ' ' and textstate.wordspace:")],
    '''
r = b'<</Font<</F<</Type/Font/Subtype/Type1/BaseFont/Helvetica/Encoding<</Differences[32/A 65/space]>>>>>>>>'
def gaps(s):
    i = items(onepage(b'BT /F 10 Tf 50 Tw 0 0 Td (' + s + b'.) Tj ET', resources=r))
    return [box(c)[0] for blk in i[0] for c in blk][1]
check('word space after code 32', gaps(b' ') > 50, True)
check('no word space after another code', gaps(b'A') > 50, False)
''', 'an encoding that shows a space with another code than 32', 'word spacing is applied by character instead of by code')

bug('c15-shared-line', 'C15', [(TXT + '__init__.py', "        obj.linematrix = self.linematrix\n", "        obj.linematrix = self.linematrix if self.rise == 0 else list(self.linematrix)\n")],
    '''
i = items(onepage(b'BT /F 10 Tf 0 0 Td 3 Ts (ab) Tj (c) Tj ET'))
x = [box(c)[0] for blk in i[0] for c in blk]
check('ascending', x[2] > x[1] > x[0], True)
''', 'two strings shown one after the other under a text rise', 'the second overprints the first')

# ---------------------------------------------------------------- C18

bug('c18-res-merge', 'C18', [(CMD + 'utils.py', "                state.fontmap[fontid] = get_font(objid, spec, font_cache)", "                state.fontmap[fontid] = font_cache.setdefault(fontid, get_font(objid, spec, font_cache)) if objid is None else get_font(objid, spec, font_cache)")],
    '''
f = lambda e: b'<</Font<</F<</Type/Font/Subtype/Type1/BaseFont/Helvetica/Encoding<</Differences[97/' + e + b']>>>>>>>>'
form = stream(b'BT /F 9 Tf (a) Tj ET', b'/Type/XObject/Subtype/Form/BBox[0 0 9 9]/Resources ' + f(b'two'))
r = f(b'one')[:-2] + b'/XObject<</X 6 0 R>>>>'
i = items(onepage(b'BT /F 9 Tf (a) Tj ET /X Do', resources=r, extra={6: form}))
check('text', [text(x) for x in i], ['1', '2'])
''', 'a form that names one of its own direct fonts like a direct font of the page', 'the text of the form is decoded with the font of the page')

# ---------------------------------------------------------------- C19
bug('c19-ei-target', 'C19', [(P + 'parser/PDFContentParser.py', "                if len(target) <= i and c.isspace():", "                if len(target) <= i and not c.isalnum():")],
    '''
i = items(onepage(b'BI /W 2 /H 1 /BPC 8 /CS /G ID \\x01EI\\x02\\x03 EI Q'))
check('data', i[0].stream.get_data(), b'\\x01EI\\x02\\x03 ')
''', 'inline image data that contains EI followed by a byte that is neither white space nor alphanumeric', 'the data is cut short there')

bug('c19-bbox', 'C19', [(CMD + 'commands.py', """    elif subtype is LITERAL_IMAGE and 'Width' in xobj and 'Height' in xobj:
        stack.complete_layout_items.append(make_image(
            xobj,  stack.t_matrix
        ))""", """    elif subtype is LITERAL_IMAGE and 'Width' in xobj and 'Height' in xobj:
        if not any(getattr(x, 'stream', None) is xobj for x in stack.complete_layout_items) and xobjid != stack.xobjmap.get(None):
            stack.complete_layout_items.append(make_image(
                xobj,  stack.t_matrix
            ))
        stack.xobjmap[None] = xobjid""")],
    '''
im = stream(b'abcd', b'/Type/XObject/Subtype/Image/Width 2/Height 2/BitsPerComponent 8/ColorSpace/DeviceGray')
c = b'q 10 0 0 10 0 0 cm /I Do Q q 10 0 0 10 50 0 cm /I Do Q'
i = items(onepage(c, resources=b'<</XObject<</I 6 0 R>>>>', extra={6: im}))
check('images', [box(x) for x in i], [(0, 0, 10, 10), (50, 0, 60, 10)])
''', 'the same image painted twice in a row', 'the second is not reported')

# ---------------------------------------------------------------- C20
bug('c20-empty-stream', 'C20', [(P + 'parser/PDFContentParser.py', """            if self.buf:
                break
            self.fp = None""", """            if self.buf:
                break
            if self.bufpos == 1 and self.istream > 1:
                raise PSEOF('Unexpected EOF')
            self.fp = None""")],
    '''
o = page_objs(b'0 0 9 9 re f')
o[3] = o[3].replace(b'4 0 R', b'[4 0 R 6 0 R 7 0 R]')
o[6] = stream(b'')
o[7] = stream(b'5 5 9 9 re f')
check('shapes', len(items(build(o))), 2)
''', 'an empty content stream between others', 'what follows it is dropped')

bug('c20-paren-split', 'C20', [(PS + 'PSBaseParser.py', "            self._curtoken = b''\n            self.paren = 1\n", "            self._curtoken = b''\n            self.paren = 1 + (j == 0 and self.bufpos == 0 and b'\\\\' in s[:2])\n")],
    '''
o = page_objs(b'BT /F 9 Tf ')
o[3] = o[3].replace(b'4 0 R', b'[4 0 R 6 0 R]')
o[6] = stream(b'(\\\\101b) Tj ET')
check('text', [text(x) for x in items(build(o))], ['Ab'])
''', 'a content stream that starts with a string that starts with an escape', 'the string is not closed')

bug('c02-crlf-table', 'C02', [(PS + 'PSBaseParser.py', "                if linebuf[-1:] == b'\\r':\n", "                if linebuf[-1:] == b'\\r' and self.charpos < len(self.buf):\n")],
    '''
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFDocument import PDFDocument
for pad in range(20):
    a = b'%PDF-1.4\\n1 0 obj<</Type/Catalog>>endobj\\n2 0 obj(two)endobj\\n'
    x = len(a)
    a += b'xref' + b' ' * pad + b'\\r\\n0 400\\r\\n'
    for n in range(400):
        p = a.find(b'\\n%d 0 obj' % n) + 1
        a += b'%010d 00000 n\\r\\n' % p if p else b'0000000000 65535 f\\r\\n'
    a += b'trailer<</Size 400/Root 1 0 R>>\\nstartxref\\n%d\\n%%%%EOF\\n' % x
    d = PDFDocument(PDFParser(io.BytesIO(a)), fallback=False)
    check('object', d.getobj(2), b'two')
''', 'a CR LF pair in a cross-reference table that straddles the end of a read block', 'an empty line appears in the table')

bug('c03-objids', 'C03', [(DOC + 'PDFXRef.py', "                if f1 == 1 or f1 == 2:\n                    yield start+i", "                if f1 == 1 or f1 == 2 and i:\n                    yield start+i")],
    '''
o3 = stream(b'1 0 5 16 <</Type/Catalog>>      (five)', b'/Type/ObjStm/N 2/First 8')
out = bytearray(b'%PDF-1.7\\n')
p3 = len(out); out += b'3 0 obj\\n' + o3 + b'\\nendobj\\n'
x = len(out)
e = lambda t, a, b: bytes([t, a >> 8, a & 255, b])
ents = e(2, 3, 0) + e(1, p3, 0) + e(1, x, 0) + e(2, 3, 1)
out += b'4 0 obj\\n' + stream(ents, b'/Type/XRef/Size 6/W[1 2 1]/Index[1 1 3 3]/Root 1 0 R') + b'\\nendobj\\nstartxref\\n%d\\n%%%%EOF\\n' % x
check('numbers', sorted(doc(bytes(out)).xrefs[0].get_objids()), [1, 3, 4, 5])
''', 'a section of a cross-reference stream that begins with a compressed object', 'its number is left out of the object numbers')

bug('c04-first-trailer', 'C04', [(DOC + 'PDFXRef.py', "            if line.startswith(b'trailer'):\n                # the last", "            if line.startswith(b'trailer') and 'Root' not in self.trailer:\n                # the last")],
    '''
a = build({1: b'<</Type/Catalog/V 1>>', 2: b'<</Type/Catalog/V 2>>'})
prev = int(a[a.rindex(b'startxref'):].split()[1])
x = len(a)
b = a + b'xref\\n0 1\\n0000000000 65535 f \\ntrailer\\n<</Size 3/Root 2 0 R/Prev %d>>\\nstartxref\\n%d\\n%%%%EOF\\n' % (prev, x)
check('intact', doc(b).catalog['V'], 2)
check('damaged', doc(b.replace(b'startxref', b'xxxxxxxxx')).catalog['V'], 2)
''', 'a damaged file with an update that has a new root', 'the first root is used')

bug('c05-crlf-end', 'C05', [(STR + '__init__.py', "        self.rawdata = rawdata\n        self.decipher", "        self.rawdata = rawdata[:-2] if decipher is None and rawdata[-2:] == b'\\r\\n' else rawdata\n        self.decipher")],
    '''
check('payload', doc(build({1: b'<</Type/Catalog>>', 2: stream(b'ab\\r\\n')})).getobj(2).get_data(), b'ab\\r\\n')
''', 'a payload that ends with CR LF', 'the line end is taken off')

bug('c08-makeup', 'C08', [(STR + 'ccitt.py', """        self._n2 += n
        if n < 64:""", """        self._n2 += n
        if n < 64 or 2560 <= self._n2:""")],
    '''
from pdfmajor.parser.PDFStream.ccitt import ccittfaxdecode
def pack(b):
    b += '0' * (-len(b) % 8)
    return int(b, 2).to_bytes(len(b) // 8, 'big')
# white 0, black 2560 + 8, white rest by v0
row = '001' + '00110101' + '000000011111' + '000101' + '1'
check('row', ccittfaxdecode(pack(row + '000000000001' * 2), {'K': -1, 'Columns': 2576}), b'\\0' * 321 + b'\\xff')
''', 'a second run of 2560 pixels or more in horizontal mode', 'the run ends after its first part')

bug('c12-limits', 'C12', [(DOC + '__init__.py', "            if 'Names' in d:\n", "            if 'Names' in d and 'Kids' not in d0:\n")],
    '''
d = doc(build({1: b'<</Type/Catalog/Names<</Dests<</Kids[2 0 R 3 0 R]>>>>>>', 2: b'<</Limits[(a)(b)]/Names[(a)1(b)2]>>', 3: b'<</Limits[(c)(c)]/Names[(c)3]>>'}))
check('dest', d.get_dest(b'c'), 3)
''', 'a name tree with kids', 'nothing is found in it')

# ---------------------------------------------------------------- C16
bug('c16-unknown-glyph', 'C16', [(P + 'parser/EncodingDB.py', """                        cid2unicode[cid] = name2unicode(x.name)
                    except KeyError:
                        pass
                    cid += 1""", """                        cid2unicode[cid] = name2unicode(x.name)
                        cid += 1
                    except KeyError:
                        pass""")],
    '''
o = page_objs(b'BT /F 10 Tf 10 700 Td (abd) Tj ET', extra={5: HELV.replace(b'/Encoding/WinAnsiEncoding', b'/Encoding<</BaseEncoding/WinAnsiEncoding/Differences[97/one/two/nosuchglyph/four]>>')})
check('text', text(items(build(o))[0]), '124')
''', 'a glyph name that is not in the list, within a run of the Differences array', 'the names after it are assigned to codes that are too low')

bug('c16-zero-width', 'C16', [(FONT + 'PDFFont.py', """            return self.widths[cid] * self.hscale
        except KeyError:
            try:""", """            return (self.widths[cid] or self.widths[-1]) * self.hscale
        except KeyError:
            try:""")],
    '''
o = page_objs(b'BT /F 10 Tf 10 700 Td (ab) Tj ET', extra={5: b'<</Type/Font/Subtype/TrueType/BaseFont/X/Encoding/WinAnsiEncoding/FirstChar 97/Widths[0 500]/FontDescriptor<</Type/FontDescriptor/FontBBox[0 0 1000 1000]/Ascent 800/Descent -200/MissingWidth 700>>>>'})
check('width', [round(c.width, 6) for c in list(items(build(o))[0])[0]], [0, 5])
''', 'a character whose width is zero in a font with a missing width', 'it gets the missing width')

bug('c16-strict-mac', 'C16', [(P + 'parser/EncodingDB.py', "        if mac:\n            mac2unicode[mac] = c", "        if mac and mac not in mac2unicode and mac != win:\n            mac2unicode[mac] = c\n        elif mac:\n            mac2unicode[mac] = win2unicode.get(mac, c)")],
    '''
from pdfmajor.parser.EncodingDB import EncodingDB
from pdfmajor.utils import LATIN_ENCODING, name2unicode
check('mac', {m: EncodingDB.get_encoding('MacRomanEncoding')[m] for (_, _, m, _, _) in LATIN_ENCODING if m}, {m: name2unicode(n) for (n, _, m, _, _) in LATIN_ENCODING if m})
''', 'a code that stands for several glyphs', 'the wrong one is given')

# ---------------------------------------------------------------- C17
bug('c17-long-text', 'C17', [(P + 'parser/cmapdb/__init__.py', "            self.cid2unichr[cid] = code.decode('UTF-16BE', 'ignore')", "            self.cid2unichr[cid] = code[:8].decode('UTF-16BE', 'ignore')")],
    '''
from pdfmajor.parser.cmapdb import FileUnicodeMap, CMapParser
m = FileUnicodeMap()
CMapParser(m, io.BytesIO(b'begincmap 1 beginbfchar <0001> <00610062006300640065> endbfchar endcmap ')).run()
check('text', m.get_unichr(1), 'abcde')
''', 'a code that stands for more than four characters', 'the text is cut off')

bug('c17-range-base', 'C17', [(P + 'parser/cmapdb/__init__.py', "                    var = code[-4:]\n                    base = nunpack(var)\n                    prefix = code[:-4]", "                    var = code[-2:]\n                    base = nunpack(var)\n                    prefix = code[:-2]"),
    (P + 'parser/cmapdb/__init__.py', "                sprefix = s[:-4]\n                eprefix = e[:-4]", "                sprefix = s[:-1] if len(s) == 3 else s[:-4]\n                eprefix = e[:-1] if len(s) == 3 else e[:-4]"),
    ],
    '''
from pdfmajor.parser.cmapdb import FileCMap, CMapParser
m = FileCMap()
CMapParser(m, io.BytesIO(b'begincmap 1 begincidrange <0100fe> <010101> 5 endcidrange endcmap ')).run()
check('cids', [int(c) for c in m.decode(b'\\1\\0\\xfe\\1\\1\\0\\1\\1\\1')], [5, 7, 8])
''', 'a range of three-byte codes that crosses a byte boundary', 'the range is dropped')

bug('c17-vertical-default', 'C17', [(FONT + 'fonts.py', "            widths = dict((cid, w) for (cid, (w, _)) in iter(widths.items()))\n            default_width = w", "            default_width = w\n            for (cid, (w, _)) in list(widths.items()):\n                widths[cid] = w\n            if w > 0:\n                default_width = w")],
    '''
o = page_objs(b'BT /F 10 Tf 100 700 Td <00010002> Tj ET', extra={
    5: b'<</Type/Font/Subtype/Type0/BaseFont/X/Encoding/Identity-V/DescendantFonts[6 0 R]/ToUnicode 7 0 R>>',
    6: b'<</Type/Font/Subtype/CIDFontType0/BaseFont/X/CIDSystemInfo<</Registry(Adobe)/Ordering(Identity)/Supplement 0>>/W2[5 5 600 500 880]/FontDescriptor<</Type/FontDescriptor/FontBBox[0 0 1000 1000]/Ascent 800/Descent -200>>>>',
    7: stream(b'begincmap 1 beginbfrange <0001> <0002> <0061> endbfrange endcmap ')})
c = list(list(items(build(o))[0])[0])
check('step', round(c[1].y0 - c[0].y0, 6), -10)
''', 'a vertical font with a positive advance in its last metrics entry', 'the default advance is taken from there')

# ---------------------------------------------------------------- C18
bug('c18-graphics', 'C18', [(CMD + '__init__.py', "                xobj_state.graphics = state.graphics.copy()", "                xobj_state.graphics = state.graphics")],
    '''
o = page_objs(b'2 w /X Do 0 0 m 5 5 l S', resources=b'<</XObject<</X 6 0 R>>>>', extra={6: stream(b'7 w 1 1 m 2 2 l S', b'/Type/XObject/Subtype/Form/BBox[0 0 10 10]')})
check('width', items(build(o))[1].linewidth, 2)
''', 'a form that changes the line width without saving the state', 'the change stays in force after the form')

bug('c18-empty-resources', 'C18', [(CMD + 'commands.py', "        resources = dict_value(xobjres) if xobjres else stack.resources.copy()", "        resources = stack.resources.copy()\n        resources.update(dict_value(xobjres) if xobjres else {})\n        if 'Font' in stack.resources:\n            resources['Font'] = stack.resources['Font']")],
    '''
F2 = HELV.replace(b'/Encoding/WinAnsiEncoding', b'/Encoding<</Differences[97/b]>>')
o = page_objs(b'/X Do', resources=b'<</Font<</F 5 0 R>>/XObject<</X 6 0 R>>>>', extra={6: stream(b'BT /F 10 Tf (a) Tj ET', b'/Type/XObject/Subtype/Form/BBox[0 0 10 10]/Resources<</Font<</F 7 0 R>>>>'), 7: F2})
check('text', text(items(build(o))[0]), 'b')
''', 'a form and a page that use the same font name for different fonts', 'the font of the page is used in the form')

# ---------------------------------------------------------------- C20
# ---------------------------------------------------------------- C21
bug('c21-pop', 'C21', [(P + 'parser/PDFContentParser.py', "                self.istream += 1", "                self.istream += 1 if len(self.streams) < 2 else 0"),
    (P + 'parser/PDFContentParser.py', "                strm = PDFStream.validated_stream(self.streams[self.istream])", "                strm = PDFStream.validated_stream(self.streams[0] if len(self.streams) < 2 else self.streams.pop(0))")],
    '''
import tempfile
from pdfmajor.interpreter import PDFInterpreter
o = page_objs(b'')
o[3] = o[3].replace(b'/Contents 4 0 R', b'/Contents[6 0 R 7 0 R]')
o.update({6: stream(b'BT /F 10 Tf (a) Tj ET'), 7: stream(b'BT /F 10 Tf (b) Tj ET')})
with tempfile.NamedTemporaryFile(suffix='.pdf') as f:
    f.write(build(o))
    f.flush()
    p = list(PDFInterpreter(f.name))[0]
    a = [text(i) for i in p]
    b = [text(i) for i in p]
check('same', a, b)
check('first', a, ['a', 'b'])
''', 'a page with several content streams that is read twice', 'only the last stream is read the second time')

# ---------------------------------------------------------------- C22
bug('c22-encoding', 'C22', [(P + 'parser/EncodingDB.py', "            cid2unicode = cid2unicode.copy()\n", "            cid2unicode = cid2unicode.copy() if name in klass.encodings else cid2unicode\n")],
    '''
odd = HELV.replace(b'/Encoding/WinAnsiEncoding', b'/Encoding<</BaseEncoding/Other/Differences[97/b]>>')
std = HELV.replace(b'/Encoding/WinAnsiEncoding', b'')
c = b'BT /F 10 Tf (a) Tj ET'
check('before', text(items(build(page_objs(c, extra={5: std})))[0]), 'a')
items(build(page_objs(c, extra={5: odd})))
check('after', text(items(build(page_objs(c, extra={5: std})))[0]), 'a')
''', 'a font with an unknown base encoding and differences, read before another document', 'the differences stay in the standard encoding')

bug('c22-colorspaces', 'C22', [(ST + '__init__.py', "        self.colorspace_map: OrderedDict = PREDEFINED_COLORSPACE.copy()", "        self.colorspace_map: OrderedDict = PREDEFINED_COLORSPACE")],
    '''
from pdfmajor.execptions import InvalidOperation
a = build(page_objs(b'/C cs 0 0 m 5 5 l S', resources=b'<</ColorSpace<</C/DeviceRGB>>>>'))
b = build(page_objs(b'/C cs 0 0 m 5 5 l S', resources=b'<<>>'))
items(a)
try:
    r = items(b)
except InvalidOperation:
    r = None
check('unknown space', r, None)
''', 'documents that define colour spaces, read before one that uses an undefined name', 'the definitions of one document are seen in the next')

# ---------------------------------------------------------------- C23
bug('c23-width', 'C23', [(FONT + 'PDFFont.py', "            except (KeyError, UnicodeNotDefined):\n                return self.default_width * self.hscale", "            except KeyError:\n                return self.default_width * self.hscale")],
    '''
o = page_objs(b'BT /F 10 Tf 10 700 Td (a\\\\001b) Tj ET', extra={5: b'<</Type/Font/Subtype/TrueType/BaseFont/X/Encoding/WinAnsiEncoding/FirstChar 97/Widths[500 500]/FontDescriptor<</Type/FontDescriptor/FontBBox[0 0 1000 1000]/Ascent 800/Descent -200>>>>'})
check('text', text(items(build(o), ignore_bad_chars=True)[0]), 'ab')
''', 'an undecodable character without a width of its own', 'reading fails although bad characters are to be ignored')

bug('c23-skip', 'C23', [(LAY + 'utils/textdecoder.py', "                assert isinstance(text, str), str(type(text))\n", "                assert isinstance(text, str), str(type(text))\n                if not text:\n                    continue\n")],
    '''
o = page_objs(b'BT /F 10 Tf 10 700 Td (a\\001b) Tj ET', extra={5: b'<</Type/Font/Subtype/TrueType/BaseFont/X/Encoding/WinAnsiEncoding/FirstChar 1/LastChar 98/Widths[' + b'500 ' * 98 + b']>>'})
chars = list(list(items(build(o), ignore_bad_chars=True)[0])[0])
check('place of the b', round(chars[-1].x0 - 10, 6), 10.0)
''', 'an undecodable character before a decodable one', 'the characters after it are moved')

# ---------------------------------------------------------------- C24
bug('c24-image-name', 'C24', [(LAY + 'LTImage.py', "            file_name = self.name + ext\n", "            file_name = (stream['Name'].name if 'Name' in stream else self.name) + ext\n")],
    '''
import tempfile
o = page_objs(b'/X Do', resources=b'<</XObject<</X 6 0 R>>>>', extra={6: stream(b'\\xff', b'/Type/XObject/Subtype/Image/Width 1/Height 1/BitsPerComponent 8/ColorSpace/DeviceGray/Name/..#2Fescaped')})
i = items(build(o))[0]
with tempfile.TemporaryDirectory() as t:
    os.mkdir(t + '/images')
    try:
        i.save_image(t + '/images')
    except OSError:
        pass
    check('folder', os.listdir(t), ['images'])
''', 'an image with a name that is a path', 'it is written outside of the image folder')

bug('c24-open', 'C24', [(P + 'interpreter/__init__.py', "        with open(self.input_file_path, 'rb') as input_file:\n", "        self._file = input_file = open(self.input_file_path, 'rb')\n        if input_file:\n"),
    (P + 'interpreter/__init__.py', '            log.info(f"Done Reading {len(self.__pages)} pages.")\n', '            log.info(f"Done Reading {len(self.__pages)} pages.")\n            self._file.close()\n')],
    '''
import tempfile
from pdfmajor.interpreter import PDFInterpreter
with tempfile.NamedTemporaryFile(suffix='.pdf') as f:
    f.write(b'junk')
    f.flush()
    n = len(os.listdir('/proc/self/fd'))
    i = PDFInterpreter(f.name)
    try:
        list(i)
    except Exception:
        pass
    check('open files', len(os.listdir('/proc/self/fd')), n)
''', 'a file that cannot be read', 'it stays open')

# ---------------------------------------------------------------- C25
CONVERT = '''
import json, tempfile
from pdfmajor.converters import convert_file
def convert(data, kind, **kw):
    with tempfile.TemporaryDirectory() as t:
        open(t + '/in.pdf', 'wb').write(data)
        convert_file(t + '/in.pdf', t + '/out.' + kind, out_type=kind, **kw)
        return open(t + '/out.' + kind, 'rb').read()
'''
bug('c25-keys', 'C25', [(P + 'converters/writers/json.py', "    def write_prop(self, key: str, val: str = \"\"):\n        if key not in self.keys:\n", "    def write_prop(self, key: str, val: str = \"\"):\n        if key not in self.keys or val:\n")],
    CONVERT + '''
o = page_objs(b'BT /F 10 Tf (a) Tj ET', extra={5: b'<</Type/Font/Subtype/TrueType/BaseFont/X/Encoding/WinAnsiEncoding/FirstChar 97/Widths[500]/FontDescriptor<</Type/FontDescriptor/FontBBox[0 0 1000 1000]/Ascent 800/Descent -200/text(other)>>>>'})
check('text', json.loads(convert(build(o), 'json'))['pages'][0]['children'][0]['char_blocks'][0]['text'], 'a')
''', 'a font descriptor with an entry named like a property of its own', 'the entry takes the place of the property')

bug('c25-points', 'C25', [(P + 'converters/json.py', "                        for point in path.points\n", "                        for point in (path.points if len(path.points) != 2 else path.points[-1:])\n")],
    CONVERT + '''
p = json.loads(convert(build(page_objs(b'0 0 m 1 2 3 4 v S')), 'json'))['pages'][0]['children'][0]['paths']
check('points', [len(x['points']) for x in p], [1, 2])
''', 'a curve that shares a control point with its ends', 'its control point is left out')

bug('c25-fill', 'C25', [(P + 'converters/json.py', "    if item.stroke.color_space is not None:\n        json.place_object(\"stroke\", {", "    if item.stroke.color_space is not None and item.stroke.color_space is not item.fill.color_space:\n        json.place_object(\"stroke\", {")],
    CONVERT + '''
p = json.loads(convert(build(page_objs(b'.5 g .25 G 0 0 m 1 2 3 4 v S')), 'json'))['pages'][0]['children'][0]
check('stroke', 'stroke' in p, True)
''', 'a shape whose stroke and fill colours are in the same space', 'the stroke colour is left out')

# ---------------------------------------------------------------- C26
bug('c26-black', 'C26', [(P + 'converters/xml.py', "    if col.color_space is not None:\n", "    if col.color_space is not None and any(col.values):\n")],
    CONVERT + '''
check('colour', b'stroke-values="0"' in convert(build(page_objs(b'0 G 0 0 m 1 2 3 4 v S')), 'xml'), True)
''', 'a colour whose components are all zero', 'it is left out')

bug('c26-nested', 'C26', [(P + 'converters/xml.py', "                for child in item:\n                    render(child)", "                for child in item:\n                    if not isinstance(child, LTXObject):\n                        render(child)")],
    CONVERT + '''
F = b'/Type/XObject/Subtype/Form/BBox[0 0 10 10]'
o = page_objs(b'/X Do', resources=b'<</XObject<</X 6 0 R/Y 7 0 R>>>>', extra={6: stream(b'/Y Do', F), 7: stream(b'0 0 m 1 2 3 4 v S', F)})
check('curve', convert(build(o), 'xml').count(b'<curve'), 1)
''', 'a form within a form', 'it is left out')

# ---------------------------------------------------------------- C27
bug('c27-low', 'C27', [(P + 'converters/html.py', "    if item.height > 0:\n", "    if item.height >= 1:\n")],
    CONVERT + '''
import re
h = convert(build(page_objs(b'0 0 m 1 .25 l 2 .5 l S')), 'html').decode()
check('path', [float(v) for v in re.findall('[0-9.]+', re.search(' d="([^"]*)"', h).group(1))], [0.0, 1.0, 2.0, .5, 4.0, 0.0])
''', 'a shape that is lower than one unit', 'its path is drawn out of its box')

bug('c27-blank', 'C27', [(P + 'converters/html.py', "            with html.elm('span', {'class': 'text-block'}):\n                for char in item:\n                    render(char)", "            with html.elm('span', {'class': 'text-block'}):\n                for char in item:\n                    if char.get_text().strip():\n                        render(char)")],
    CONVERT + '''
check('spaces', convert(build(page_objs(b'BT /F 10 Tf (a) Tj ( ) Tj (b) Tj ET')), 'html').count(b'"char"'), 3)
''', 'a string of spaces only', 'its characters are left out')

# ---------------------------------------------------------------- C28
bug('c28-keys', 'C28', [(P + 'converters/writers/yaml.py', "    def write(self, key: str, value: str):\n        if key not in self.keys:\n", "    def write(self, key: str, value: str):\n        if key not in self.keys or value[:1] == '\"':\n")],
    CONVERT + '''
import yaml
o = page_objs(b'BT /F 10 Tf (a) Tj ET', extra={5: b'<</Type/Font/Subtype/TrueType/BaseFont/X/Encoding/WinAnsiEncoding/FirstChar 97/Widths[500]/FontDescriptor<</Type/FontDescriptor/FontBBox[0 0 1000 1000]/Ascent 800/Descent -200/text(other)>>>>'})
check('text', yaml.safe_load(convert(build(o), 'yaml'))['pages'][0]['children'][0]['char_blocks'][0]['text'], 'a')
''', 'a font descriptor with an entry named like a property of its own', 'the key is written twice')

bug('c28-line', 'C28', [(P + 'converters/yaml.py', "    elif isinstance(item, LTLine):\n", "    elif isinstance(item, LTLine) or len(item.paths) == 2:\n")],
    CONVERT + '''
import yaml
p = yaml.safe_load(convert(build(page_objs(b'0 0 m 1 2 3 4 v S')), 'yaml'))['pages'][0]['children'][0]
check('kind', (p['type'], len(p.get('paths', []))), ('curve', 2))
''', 'a path of one curve segment', 'it is written as a line')

# ---------------------------------------------------------------- C29
bug('c29-order', 'C29', [(P + 'converters/text.py', "                elif isinstance(item, LTXObject):\n                    process_container(item)\n", "                elif isinstance(item, LTXObject):\n                    forms.append(item)\n            for item in forms:\n                process_container(item)\n"),
    (P + 'converters/text.py', "            for item in container:\n                if isinstance(item, LTTextBlock):", "            forms = []\n            for item in container:\n                if isinstance(item, LTTextBlock):")],
    CONVERT.replace("'/out.' + kind", "'/out.text'") + '''
F = b'/Type/XObject/Subtype/Form/BBox[0 0 10 10]'
T = b'BT /F 10 Tf (%s) Tj ET '
o = page_objs(b'/X Do ' + T % b'b', resources=b'<</Font<</F 5 0 R>>/XObject<</X 6 0 R>>>>', extra={6: stream(T % b'a', F)})
check('order', convert(build(o), 'text').splitlines()[1], b'ab')
''', 'text after a form on the same page', 'the text of the form is moved to the end')

bug('c29-suffix', 'C29', [(P + 'converters/__init__.py', "    if re.search(re.escape(out_type) + r'$', output_file ) is None:", "    if re.search(re.escape(out_type), output_file ) is None:")],
    CONVERT + '''
from pdfmajor.execptions import ConverterException
with tempfile.TemporaryDirectory() as t:
    os.mkdir(t + '/html')
    open(t + '/in.pdf', 'wb').write(build(page_objs(b'')))
    try:
        convert_file(t + '/in.pdf', t + '/html/out.txt', out_type='html')
        r = 'accepted'
    except ConverterException:
        r = 'refused'
    check('name', (r, os.listdir(t + '/html')), ('refused', []))
''', 'an output path that holds the name of the format elsewhere than at its end', 'it is accepted')

# ---------------------------------------------------------------- C31
# ---------------------------------------------------------------- C32
bug('c32-pagenos', 'C32', [('tools/pdfconvert.py', "            func_args['pagenos'] = set([int(x)-1 for x in parsed_args.pagenos.split(\",\")])" if False else "        func_args['pagenos'] = set([int(x)-1 for x in parsed_args.pagenos.split(\",\")])", "        func_args['pagenos'] = [int(x)-1 for x in parsed_args.pagenos.split(\",\")[:parsed_args.maxpages or None]]")],
    '''
import subprocess, tempfile
T = b'BT /F 10 Tf (%s) Tj ET '
o = page_objs(T % b'a')
o[2] = b'<</Type/Pages/Kids[3 0 R 6 0 R 7 0 R]/Count 3>>'
for (n, c) in ((6, b'b'), (7, b'c')):
    o[n] = o[3].replace(b'/Contents 4 0 R', b'/Contents %d 0 R' % (n + 4))
    o[n + 4] = stream(T % c)
with tempfile.NamedTemporaryFile(suffix='.pdf') as f:
    f.write(build(o))
    f.flush()
    out = subprocess.run([sys.executable, 'tools/pdfconvert.py', '-p', '3,1', '-m', '1', f.name], capture_output=True, env=dict(os.environ, PYTHONPATH='.')).stdout
check('pages', [l for l in out.splitlines() if l and not l.startswith(b'=')], [b'a'])
''', 'a list of pages that is not in order, with a maximum', 'the maximum is applied to the list as written')

bug('c32-override', 'C32', [('tools/pdfconvert.py', "            if parsed_args.output_file.endswith(override):", "            if override in parsed_args.output_file:")],
    '''
import subprocess, tempfile
with tempfile.TemporaryDirectory() as t:
    open(t + '/in.pdf', 'wb').write(build(page_objs(b'')))
    subprocess.run([sys.executable, 'tools/pdfconvert.py', '-o', t + '/a.xml.text', t + '/in.pdf'], env=dict(os.environ, PYTHONPATH='.'))
    check('format', open(t + '/a.xml.text', 'rb').read()[:10], b'==========')
''', 'a text output whose name holds the extension of another format', 'the other format is written')

# ---------------------------------------------------------------- C33
bug('c33-contents', 'C33', [(P + 'parser/PDFPage.py', "            contents = resolve1(self.attrs['Contents'])", "            contents = self.attrs['Contents']")],
    '''
o = page_objs(b'BT /F 10 Tf (a) Tj ET')
o[3] = o[3].replace(b'/Contents 4 0 R', b'/Contents 6 0 R')
o[6] = b'[4 0 R]'
check('text', [text(i) for i in items(build(o))], ['a'])
''', 'a reference to an array of content streams', 'the page is blank')

bug('c33-name', 'C33', [(P + 'parser/PDFStream/__init__.py', "                    columns = int_value(params.get('Columns', 1))", "                    columns = params.get('Columns', 1)\n                    if not isinstance(columns, int):\n                        columns = 1")],
    '''
import zlib
d = doc(build({1: b'<</Type/Catalog>>', 2: stream(zlib.compress(b'\\2ab\\2ab'), b'/Filter/FlateDecode/DecodeParms<</Predictor 12/Columns 3 0 R>>'), 3: b'2'}))
check('data', d.getobj(2).get_data(), b'ab\\xc2\\xc4')
''', 'the number of columns of a predictor given by reference', 'it is taken as one')



# ---------------------------------------------------------------- C30
# the samples have such names
bug('c30-hex-name', 'C30', [(PS + 'PSBaseParser.py', """            self._curtoken += int2byte(int(self.hex, 16))
        self._current_parse_func = self._parse_literal
        return i""", """            self._curtoken += int2byte(int(self.hex, 16))
            self._current_parse_func = self._parse_literal
        return i""")],
    '''
import subprocess
code = "import sys, io; sys.path.insert(0, '.'); from pdfmajor.parser.PSStackParser.PSBaseParser import PSBaseParser; print(PSBaseParser(io.BytesIO(%r)).nexttoken())"
for n in (b'/A#42 ', b'/A#zz '):
    try:
        subprocess.run([sys.executable, '-c', code % n], timeout=20, check=True)
    except subprocess.TimeoutExpired:
        check('reading %r' % n, 'does not end', 'ends')
''', 'a name with a number sign that no hexadecimal digits follow', 'reading does not end')

bug('c30-xref-skip', 'C30', [(P + 'parser/PDFDocument/PDFXRef.py', """                    (_, line) = parser.nextline()
                except PSEOF:
                    raise PDFNoValidXRef('Unexpected EOF - file corrupted?')""", """                    (_, line) = parser.nextline()
                except PSEOF:
                    continue""")],
    '''
import subprocess
code = "import sys; sys.path.insert(0, '.'); sys.path.insert(0, %r)\\nfrom minipdf import *\\ntry: doc(%r)\\nexcept Exception: pass"
for n in (6, 4000000000):
    data = build(page_objs(b''))
    x = data.index(b'xref\\n')
    body, section = data[:x], data[x:data.index(b'trailer')]
    end = b'startxref\\n%010d\\n%%%%EOF\\n'
    data = body + end % (len(body) + len(end % 0)) + section.replace(b'0 6', b'0 %d' % n)
    try:
        subprocess.run([sys.executable, '-c', code % (os.path.dirname(os.path.abspath(__file__)), data)], timeout=20)
    except subprocess.TimeoutExpired:
        check('section of %d' % n, 'does not end', 'ends')
''', 'a damaged file whose section claims many entries and ends before them', 'all claimed entries are walked through')

bug('c30-type1', 'C30', [(FONT + 'Type1FontHeaderParser.py', """            except PSEOF:
                break
""", """            except PSEOF:
                if not self._cid2unicode:
                    continue
                break
""")],
    '''
import subprocess
code = "import sys; sys.path.insert(0, '.'); sys.path.insert(0, %r)\\nfrom minipdf import *\\nitems(build(page_objs(b'BT /F 9 Tf (a) Tj ET', extra={5: b'<</Type/Font/Subtype/Type1/BaseFont/X/FontDescriptor 6 0 R/FirstChar 97/Widths[500]>>', 6: b'<</Type/FontDescriptor/FontFile 7 0 R>>', 7: stream(%r, b'/Length1 %%d' %% len(%r))})))"
for f in (b'dup 97 /a put\\n', b'%!PS StandardEncoding def\\n'):
    try:
        subprocess.run([sys.executable, '-c', code % (os.path.dirname(os.path.abspath(__file__)), f, f)], timeout=20, check=True)
    except subprocess.TimeoutExpired:
        check('font file %r' % f, 'does not end', 'ends')
''', 'an embedded font file without entries of its own encoding', 'reading does not end')

# ---------------------------------------------------------------- C31
bug('c31-list', 'C31', [(STR + 'util.py', """            raise PDFTypeError('List required: %r' % x)
        return []
""", """            raise PDFTypeError('List required: %r' % x)
        return [] if x is None else x
""")],
    '''
from pdfmajor.execptions import PDFMajorException
for o in ({2: b'<</Type/Pages/Kids 5/Count 1>>'}, {2: b'<</Type/Pages/Kids(ab)/Count 1>>'}, {3: b'<</Type/Page/Parent 2 0 R/MediaBox 7/Contents 4 0 R>>'}, {3: b'<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]/Contents 7>>'}):
    try:
        interp(build(page_objs(b'0 0 5 5 re f', extra=o)))
    except PDFMajorException:
        pass
''', 'a list that is not one', 'an undocumented exception')

bug('c31-fax-error', 'C31', [(P + 'execptions.py', "class CCITTExeception(ParserError):", "class CCITTExeception(Exception):")],
    '''
from pdfmajor.execptions import PDFMajorException
for seed in range(40):
    data = bytes((seed * 37 + i * i * 11 + i * seed) & 255 for i in range(40))
    i = items(build(page_objs(b'/X Do', resources=b'<</XObject<</X 6 0 R>>>>', extra={6: stream(data, b'/Type/XObject/Subtype/Image/Width 8/Height 4/BitsPerComponent 1/ColorSpace/DeviceGray/Filter/CCITTFaxDecode/DecodeParms<</K -1/Columns 8>>')})))[0]
    try:
        i.stream.get_data()
    except PDFMajorException:
        pass
''', 'damaged fax data', 'an undocumented exception')

bug('c31-title', 'C31', [(P + 'utils/text.py', "'utf-16be', 'ignore')", "'utf-16be')")],
    '''
from pdfmajor.execptions import PDFMajorException
d = doc(build(page_objs(b'', extra={1: b'<</Type/Catalog/Pages 2 0 R/Outlines 6 0 R>>', 6: b'<</Type/Outlines/First 7 0 R/Last 7 0 R>>', 7: b'<</Title<FEFF0041D8>/Parent 6 0 R/Dest[3 0 R/Fit]>>'})))
try:
    check('titles', [t[1] for t in d.get_outlines()], ['A'])
except PDFMajorException:
    pass
''', 'a title in UTF-16 that ends in the middle of a character', 'an undocumented exception, or another title')

# ---------------------------------------------------------------- third batch
bug('c34-negative', 'C34', [(STR + 'util.py', """    if not isinstance(x, int):
        if settings.STRICT:
            raise PDFTypeError('Integer required: %r' % x)
""", """    if not isinstance(x, int) or settings.STRICT and x < 0:
        if settings.STRICT:
            raise PDFTypeError('Integer required: %r' % x)
""")],
    '''
from pdfmajor.utils import settings
from pdfmajor.execptions import PDFMajorException
for strict in (False, True):
    settings.STRICT = strict
    try:
        check('boxes, strict %s' % strict, [(i.x0, i.y0) for i in items(build(page_objs(b'0 0 5 7 re f', page=b'/Rotate -90')))], [(793, 0)])
    except PDFMajorException as e:
        check('error, strict %s' % strict, repr(e), None)
''', 'strict reading of a legal document with a negative integer', 'the document is refused')

bug('c34-empty-list', 'C34', [(STR + 'util.py', """    if not isinstance(x, (list, tuple)):
        if settings.STRICT:
            raise PDFTypeError('List required: %r' % x)
""", """    if not isinstance(x, (list, tuple)) or not x:
        if settings.STRICT:
            raise PDFTypeError('List required: %r' % x)
""")],
    '''
from pdfmajor.utils import settings
from pdfmajor.execptions import PDFMajorException
for strict in (False, True):
    settings.STRICT = strict
    try:
        o = page_objs(b'0 0 5 7 re f')
        o[2] = b'<</Type/Pages/Kids[6 0 R 3 0 R]/Count 1>>'
        o[6] = b'<</Type/Pages/Parent 2 0 R/Kids[]/Count 0>>'
        check('items, strict %s' % strict, len(items(build(o))), 1)
    except PDFMajorException as e:
        check('error, strict %s' % strict, repr(e), None)
''', 'strict reading of a legal document with an empty array', 'the document is refused')

bug('c35-touch', 'C35', [(ST + 'layout/_base.py', "return obj.y0 <= self.y1 and self.y0 <= obj.y1", "return obj.y0 < self.y1 and self.y0 < obj.y1")],
    '''
a, b = items(build(page_objs(b'0 0 5 7 re f 2 7 5 7 re f')))
check('overlap', (a.is_voverlap(b), b.is_voverlap(a), a.vdistance(b), a.is_hoverlap(b)), (True, True, 0, True))
''', 'two items of which one starts where the other ends', 'the items count as apart')

bug('c35-empty', 'C35', [(ST + 'layout/_base.py', "return self.width <= 0 or self.height <= 0", "return self.width <= 0 and self.height <= 0")],
    '''
a, = items(build(page_objs(b'10 20 m 60 20 l S')))
check('empty', (a.width, a.height, a.is_empty()), (50, 0, True))
''', 'a line along an axis', 'it is not empty')

bug('c11-rotate-box', 'C11', [(P + 'interpreter/PageInterpreter.py', "ctm = [0, 1, -1, 0, y1, -x0]", "ctm = [0, 1, -1, 0, y1-y0, -x0]")],
    '''
for rot, size, want in ((270, b'[0 0 600 800]', (781, 10)), (270, b'[0 100 600 800]', (781, 10)), (90, b'[5 100 600 800]', (-88, 587))):
    i, = items(build(page_objs(b'10 12 3 7 re f', extra={3: b'<</Type/Page/Parent 2 0 R/MediaBox' + size + b'/Rotate %d/Contents 4 0 R/Resources<<>>>>' % rot})))
    check('place in %r turned by %d' % (size, rot), (i.x0, i.y0), want)
''', 'a page turned by 270 degrees whose box does not start at the origin', 'everything on the page is shifted')

bug('c05-empty-twice', 'C05', [(STR + '__init__.py', """        if self.data is None:
            self.decode()
        return self.data
""", """        if not self.data:
            self.decode()
        return self.data
""")],
    '''
d = doc(build(page_objs(b'', extra={6: stream(b''), 7: stream(b'x')})))
for n, want in ((7, b'x'), (6, b'')):
    s = d.getobj(n)
    check('data', (s.get_data(), s.get_data()), (want, want))
''', 'the data of an empty stream asked for twice', 'an assertion fails')

bug('c08-code', 'C08', [(STR + 'ccitt.py', '''    BitParser.add(BLACK, 1408, '0000001010100')
    BitParser.add(BLACK, 1472, '0000001010101')
''', '''    BitParser.add(BLACK, 1408, '0000001010101')
    BitParser.add(BLACK, 1472, '0000001010100')
''')],
    '''
for code, n in (('0000001010100', 1408), ('0000001010101', 1472), ('0000001011010', 1536)):
    bits = '001' + '00110101' + code + '0000110111' + '1' + '000000000001' * 2
    bits += '0' * (-len(bits) % 8)
    data = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    s = doc(build(page_objs(b'', extra={6: stream(data, b'/Filter/CCITTFaxDecode/DecodeParms<</K -1/Columns 1600>>')}))).getobj(6)
    check('run of %d' % n, s.get_data().hex(), '00' * (n // 8) + 'ff' * (200 - n // 8))
''', 'a black run of 1408 to 1535 points in fax data', 'the run has another length')

bug('c02-inline-edge', 'C02', [(P + 'parser/PDFContentParser.py', """        while i <= len(target):
            self.fillbuf()
""", """        while i <= len(target):
            if self.charpos == len(self.buf):
                i = 0
            self.fillbuf()
""")],
    '''
for n in range(4080, 4100):
    img = b'BI /W %d /H 1 /BPC 8 /CS /G ID ' % n + b'a' * n + b'\\nEI 0 0 5 7 re f'
    got = items(build(page_objs(img)))
    check('items with %d bytes of data' % n, [type(x).__name__ for x in got][:1] + [len(got)], ['LTImage', 2])
''', 'a block boundary inside the end of an inline image', 'the image goes on to the next end marker')

bug('c04-trailer-order', 'C04', [(DOC + 'PDFXRef.py', "        self.trailer.update(dict_value(dic))", "        self.trailer = dict(dict_value(dic), **self.trailer)")],
    '''
o = page_objs(b'', extra={6: b'<</Title(one)>>', 7: b'<</Title(two)>>'})
d = build(o, trailer='/Root 1 0 R/Info 6 0 R')
d = d[:d.rindex(b'startxref')] + b'xref\\n0 0\\ntrailer\\n<</Size 8/Root 1 0 R/Info 7 0 R>>\\nstartxref\\n99999999\\n%%EOF\\n'
check('information', doc(d).info[0], {'Title': b'two'})
''', 'a damaged file with two trailers that differ', 'the older trailer wins')

bug('c04-objstm-header', 'C04', [(DOC + 'PDFXRef.py', "                n = min(n, len(objs)//2)", "                n = min(n, 100, len(objs)//2)")],
    '''
n = 130
head = b' '.join(b'%d %d' % (10 + k, 2 * k) for k in range(n)) + b' '
body = b' '.join(b'%d' % (k % 10) for k in range(n))
d = build(page_objs(b'', extra={6: stream(head + body, b'/Type/ObjStm/N %d/First %d' % (n, len(head)))}))
d = d[:d.rindex(b'startxref')] + b'startxref\\n99999999\\n%%EOF\\n'
d = d.replace(b'xref\\n0 7', b'xrxf\\n0 7')
got = doc(d)
check('objects', [got.getobj(10 + k) for k in range(n)], [k % 10 for k in range(n)])
''', 'a damaged file with an object stream of more than a hundred objects', 'the objects are lost')
