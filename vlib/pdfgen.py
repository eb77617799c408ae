"""Independent PDF writer used as the workload generator.

Nothing here imports the code under test.  Values are modelled with plain
Python objects plus the small classes below, and every spelling freedom the PDF
syntax leaves (white space, comments, string/name/number forms, file layout) is
drawn from a seeded random generator so that the same document can be written
in many ways.
"""
import re
import struct
import zlib

WHITE = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'


class Name:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n.encode('utf-8') if isinstance(n, str) else bytes(n)

    def __eq__(self, o):
        return isinstance(o, Name) and o.n == self.n

    def __hash__(self):
        return hash(('N', self.n))

    def __repr__(self):
        return '/%r' % self.n


class Ref:
    __slots__ = ('num', 'gen')

    def __init__(self, num, gen=0):
        self.num, self.gen = num, gen

    def __eq__(self, o):
        return isinstance(o, Ref) and (o.num, o.gen) == (self.num, self.gen)

    def __hash__(self):
        return hash((self.num, self.gen))

    def __repr__(self):
        return '%d %d R' % (self.num, self.gen)


class Raw:
    """Verbatim bytes (one token as far as separators are concerned)."""

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'Raw(%r)' % self.b


class Stream:
    """attrs must not contain /Length: the writer supplies it."""

    def __init__(self, attrs, data, length_ref=None, eol=b'\n', tail=b'\n', plain=False):
        self.attrs = attrs
        self.data = data
        self.length_ref = length_ref    # object number that holds /Length
        self.eol = eol                  # EOL after 'stream'
        self.tail = tail                # EOL before 'endstream'
        self.plain = plain              # never encrypted

    def __repr__(self):
        return 'Stream(%r, %r)' % (self.attrs, self.data[:40])


class Style:
    """Spelling choices. rng=None gives the plain canonical spelling."""

    def __init__(self, rng=None, wild=0.5, comments=True, nul_ws=True, fixed_sep=None):
        self.rng = rng
        self.wild = wild
        self.comments = comments
        self.nul_ws = nul_ws
        self.fixed_sep = fixed_sep

    # -- white space ------------------------------------------------------
    def sep(self, required):
        if self.fixed_sep is not None:
            return self.fixed_sep
        r = self.rng
        if r is None or r.random() > self.wild:
            return b' ' if required else b''
        out = b''
        n = r.choice((1, 1, 1, 2, 3, 6))
        for _ in range(n):
            k = r.random()
            if k < 0.12 and self.comments:
                body = bytes(r.choice(b'abc (<[{>)]}/% \\0123456789 R obj endobj stream')
                             for _ in range(r.randrange(0, 12)))
                out += b'%' + body + r.choice((b'\n', b'\r', b'\r\n'))
            elif k < 0.17 and self.nul_ws:
                out += b'\x00'
            else:
                out += r.choice((b' ', b'\n', b'\r', b'\t', b'\x0c', b'\r\n', b'  '))
        return out

    def one(self, p=0.5):
        return self.rng is not None and self.rng.random() < p * self.wild * 2

    # -- atoms ------------------------------------------------------------
    def num(self, v):
        if isinstance(v, int):
            s = b'%d' % v
            if self.one(0.3):
                neg = v < 0
                body = b'%d' % abs(v)
                if self.one(0.4):
                    body = b'0' * self.rng.randrange(1, 4) + body
                s = (b'-' if neg else (b'+' if self.one(0.5) else b'')) + body
            return s
        s = repr(float(v))
        if 'e' in s or 'inf' in s or 'nan' in s:
            s = '%.12f' % v
        s = s.encode()
        if self.one(0.4):
            neg = s.startswith(b'-')
            body = s.lstrip(b'-')
            ip, fp = body.split(b'.')
            if ip == b'0' and fp != b'0' and self.one(0.6):
                ip = b''
            if fp == b'0' and self.one(0.6):
                fp = b''
            elif self.one(0.3):
                fp = fp + b'0' * self.rng.randrange(1, 3)
            s = (b'-' if neg else (b'+' if self.one(0.4) else b'')) + ip + b'.' + fp
        return s

    def name(self, n):
        n = n.n if isinstance(n, Name) else (n.encode('utf-8') if isinstance(n, str) else n)
        out = b'/'
        for c in n:
            must = c < 0x21 or c == 0x7f or c in DELIM or c == 0x23
            if must or (self.rng is not None and self.rng.random() < 0.15 * self.wild):
                h = b'%02x' % c
                if self.rng is not None and self.rng.random() < 0.5:
                    h = h.upper()
                out += b'#' + h
            elif c > 0x7e and not (self.rng is not None and self.rng.random() < 0.4 * self.wild):
                out += b'#%02x' % c
            else:
                out += bytes((c,))
        return out

    def string(self, b):
        r = self.rng
        if r is None:
            return self._lit_plain(b)
        k = r.random()
        if k > self.wild:
            return self._lit_plain(b) if r.random() < 0.7 else b'<' + b.hex().encode() + b'>'
        if k < self.wild * 0.35:
            return self._hex_wild(b)
        return self._lit_wild(b)

    @staticmethod
    def _lit_plain(b):
        out = b'('
        for c in b:
            if c in b'()\\':
                out += b'\\' + bytes((c,))
            elif c == 13:
                out += b'\\r'
            elif c == 10:
                out += b'\\n'
            else:
                out += bytes((c,))
        return out + b')'

    def _hex_wild(self, b):
        r = self.rng
        out = b'<'
        for c in b:
            for d in b'%02x' % c:
                d = bytes((d,))
                if r.random() < 0.5:
                    d = d.upper()
                out += d
                if r.random() < 0.15:
                    out += r.choice((b' ', b'\n', b'\r\n', b'\t', b'\x0c'))
        return out + b'>'

    def _lit_wild(self, b):
        r = self.rng
        # which parentheses may stay bare: match them greedily
        bare = set()
        if r.random() < 0.7:
            st = []
            for i, c in enumerate(b):
                if c == 40:
                    st.append(i)
                elif c == 41 and st:
                    j = st.pop()
                    bare.add(i)
                    bare.add(j)
        parts = []      # list of (bytes)
        SIMPLE = {10: b'n', 13: b'r', 9: b't', 8: b'b', 12: b'f', 40: b'(', 41: b')', 92: b'\\'}
        # bare pairs must be all-or-nothing: decide per pair
        keep = set()
        st = []
        for i, c in enumerate(b):
            if i in bare:
                if c == 40:
                    st.append(i)
                else:
                    j = st.pop()
                    if r.random() < 0.8:
                        keep.add(i)
                        keep.add(j)
        for i, c in enumerate(b):
            if r.random() < 0.03:
                parts.append(b'\\' + r.choice((b'\n', b'\r', b'\r\n')))
                last_cr = parts[-1] == b'\\\r'
            else:
                last_cr = False
            nxt = b[i + 1] if i + 1 < len(b) else None
            prev_raw_cr = (parts and parts[-1] == b'\r') or last_cr
            k = r.random()
            if c in (40, 41) and i in keep:
                parts.append(bytes((c,)))
                continue
            octal3 = b'\\%03o' % c
            if k < 0.12:
                parts.append(octal3)
            elif k < 0.17 and c < 64 and not (nxt is not None and nxt in b'01234567'):
                s = b'\\%o' % c
                # a following spelled digit must not extend the code: use a marker
                parts.append((s, 'short'))
            elif k < 0.19 and c >= 0x00 and c < 0x100:
                # high-order overflow is ignored
                parts.append(b'\\%03o' % (c | 0x100))
            elif c in SIMPLE and (c in (40, 41, 92) or k < 0.6):
                parts.append(b'\\' + SIMPLE[c])
            elif c == 13:
                parts.append(b'\\r')
            elif c == 10:
                m = r.random()
                if m < 0.4 and not prev_raw_cr:
                    parts.append(b'\n')
                elif m < 0.7:
                    parts.append(b'\r')
                elif m < 0.9:
                    parts.append(b'\r\n')
                else:
                    parts.append(b'\\n')
            elif (k < 0.3 and c not in b'nrtbf()\\01234567\r\n'):
                parts.append(b'\\' + bytes((c,)))
            else:
                parts.append(bytes((c,)))
        out = b'('
        prev_short = False
        for p in parts:
            short = False
            if isinstance(p, tuple):
                p, short = p[0], True
            if prev_short and p[:1] in (b'0', b'1', b'2', b'3', b'4', b'5', b'6', b'7'):
                out += b'\\\n'
            # raw CR followed by something starting with raw LF would merge
            if out.endswith(b'\r') and not out.endswith(b'\\r') and p[:1] == b'\n':
                p = b'\\n' + p[1:]
            out += p
            prev_short = short
        return out + b')'

    # -- composite ----------------------------------------------------------
    def tokens(self, o, enc=None):
        if o is None:
            yield b'null'
        elif o is True:
            yield b'true'
        elif o is False:
            yield b'false'
        elif isinstance(o, (int, float)):
            yield self.num(o)
        elif isinstance(o, Name):
            yield self.name(o)
        elif isinstance(o, (bytes, bytearray)):
            yield self.string(enc(bytes(o)) if enc else bytes(o))
        elif isinstance(o, Ref):
            yield b'%d' % o.num
            yield b'%d' % o.gen
            yield b'R'
        elif isinstance(o, Raw):
            yield o.b
        elif isinstance(o, (list, tuple)):
            yield b'['
            for x in o:
                yield from self.tokens(x, enc)
            yield b']'
        elif isinstance(o, dict):
            yield b'<<'
            for k, v in o.items():
                yield self.name(k)
                yield from self.tokens(v, enc)
            yield b'>>'
        else:
            raise TypeError(type(o))

    def join(self, toks, first=b'', last_required=False):
        out = first
        for t in toks:
            need = bool(out) and (is_regular(out[-1]) or out[-1] == 0x2f) and is_regular(t[0])
            # ')' '(' etc never need a separator; '<' '<' might merge only for '<' + '<<'
            s = self.sep(need)
            if need and not s:
                s = b' '
            out += s + t
        return out

    def ser(self, o, enc=None):
        return self.join(self.tokens(o, enc))


def is_regular(c):
    return c not in WHITE and c not in DELIM


PLAIN = Style(None)


def ser(o):
    return PLAIN.ser(o)


FREE = object()


class Revision:
    """One (incremental) section of a file.

    objs: {num: (gen, obj)} or {num: (gen, FREE)}
    layout: 'table' | 'stream' | 'hybrid'
    packed: set of object numbers stored in object streams
    """

    def __init__(self, objs, layout='table', packed=(), trailer=None, nobjstm=1,
                 w=None, index_split=False, split_table=False, xref_filter=True,
                 objstm_extends=False, xref_pred=None):
        self.objs = objs
        self.layout = layout
        self.packed = set(packed)
        self.trailer = dict(trailer or {})
        self.nobjstm = nobjstm
        self.w = w
        self.index_split = index_split
        self.split_table = split_table
        self.xref_filter = xref_filter
        self.objstm_extends = objstm_extends
        self.xref_pred = xref_pred


class Writer:
    """Serialises revisions into a PDF file."""

    def __init__(self, style=None, eol=b'\n', header=b'%PDF-1.7', binary=True, enc=None,
                 keep_order=False, prefix=b''):
        self.style = style or PLAIN
        self.eol = eol
        self.enc = enc
        self.out = bytearray(prefix)
        self.out += header + eol
        if binary:
            self.out += b'%\xe2\xe3\xcf\xd3' + eol
        self.prev = None
        self.offsets = {}
        self.max_num = 0
        self.starts = []            # startxref values
        self.sections = []          # (kind, start, end) byte ranges of xref sections
        self.obj_spans = {}         # num -> (start,end) of latest object
        self.stream_spans = {}      # num -> (start,end) of payload
        self.trailer_spans = []
        self.xstreams = {}          # num -> (attributes, decoded data) of xref streams that list themselves
        self.keep_order = keep_order
        self.header_ws = None       # function giving the white space between number, generation and obj

    # one indirect object at the current offset
    def emit(self, num, gen, obj, encrypt=True, style=None):
        st = style or self.style
        off = len(self.out)
        enc_s = None
        if self.enc is not None and self.enc.num == num:
            encrypt = False
        if self.enc is not None and encrypt:
            enc_s = lambda b: self.enc.string(num, gen, b)
        o = self.out
        if self.header_ws is None:
            o += b'%d %d obj' % (num, gen)
        else:
            o += b'%d' % num + self.header_ws() + b'%d' % gen + self.header_ws() + b'obj'
        if isinstance(obj, Stream):
            data = obj.data
            if self.enc is not None and encrypt and not obj.plain:
                data = self.enc.stream(num, gen, obj.attrs, data)
            attrs = dict(obj.attrs)
            if obj.length_ref is not None:
                attrs['Length'] = Ref(obj.length_ref)
                self._lengths[obj.length_ref] = len(data)
            elif 'Length' not in attrs:
                attrs['Length'] = len(data)
            body = st.join(st.tokens(attrs, enc_s))
            o += (st.sep(False) or self.eol) + body
            o += (st.sep(False) or self.eol) + b'stream' + obj.eol
            a = len(o)
            o += data
            self.stream_spans[num] = (a, len(o))
            o += obj.tail + b'endstream'
            o += (st.sep(False) or self.eol) + b'endobj' + self.eol
        else:
            toks = list(st.tokens(obj, enc_s))
            need = is_regular(toks[0][0])
            s = st.sep(need)
            if need and not s:
                s = b' '
            o += s + st.join(toks)
            need = is_regular(toks[-1][-1]) or toks[-1] == b'/'
            s = st.sep(need) or (b' ' if need else b'')
            o += s + b'endobj' + self.eol
        self.obj_spans[num] = (off, len(self.out))
        return off

    def revision(self, rev, rng=None):
        self._lengths = {}
        entries = {}        # num -> ('n', off, gen) | ('f', next, gen) | ('c', stm, idx)
        nums = [n for n, (g, v) in rev.objs.items()]
        if rng is not None and not self.keep_order:
            rng.shuffle(nums)
        for n in nums:
            self.max_num = max(self.max_num, n)
        packed = [n for n in nums if n in rev.packed and rev.objs[n][1] is not FREE
                  and not isinstance(rev.objs[n][1], Stream) and rev.objs[n][0] == 0]
        if rev.layout == 'table':
            packed = []
        pk = set(packed)
        later = []
        for n in nums:
            g, v = rev.objs[n]
            if v is FREE:
                entries[n] = ('f', 0, g)
            elif n in pk:
                continue
            elif isinstance(v, int) and not isinstance(v, bool) and getattr(self, '_len_slots', None) and n in self._len_slots:
                later.append(n)
            else:
                if isinstance(v, Stream) and v.length_ref is not None:
                    self._len_slots = getattr(self, '_len_slots', set())
                entries[n] = ('n', self.emit(n, g, v), g)
        for ln, val in self._lengths.items():
            if ln not in entries:
                self.max_num = max(self.max_num, ln)
                entries[ln] = ('n', self.emit(ln, 0, val), 0)
        # object streams
        if packed:
            groups = [packed[i::rev.nobjstm] for i in range(rev.nobjstm)]
            prev_stm = None
            for grp in groups:
                if not grp:
                    continue
                self.max_num += 1
                sn = self.max_num
                head = b''
                body = b''
                for idx, n in enumerate(grp):
                    st = self.style
                    s = st.join(st.tokens(rev.objs[n][1]))
                    if body:
                        body += st.sep(True) or b' '
                    head += b'%d %d ' % (n, len(body))
                    body += s
                    entries[n] = ('c', sn, idx)
                attrs = {'Type': Name('ObjStm'), 'N': len(grp), 'First': len(head)}
                if rev.objstm_extends and prev_stm:
                    attrs['Extends'] = Ref(prev_stm)
                prev_stm = sn
                data = head + body
                if rev.xref_filter:
                    attrs['Filter'] = Name('FlateDecode')
                    data = zlib.compress(data)
                entries[sn] = ('n', self.emit(sn, 0, Stream(attrs, data)), 0)
        trailer = dict(rev.trailer)
        if rev.layout == 'table':
            self._table(entries, trailer, rev, rng)
        elif rev.layout == 'stream':
            self._xstream(entries, trailer, rev, rng)
        else:
            comp = {n: e for n, e in entries.items() if e[0] == 'c'}
            tab = {n: e for n, e in entries.items() if e[0] != 'c'}
            # in the table the compressed objects appear free (spec), in XRefStm they are given
            for n in comp:
                tab[n] = ('f', 0, 0)
            pos = self._xstream(comp, {k: v for k, v in trailer.items() if k not in ('Prev',)}, rev, rng, final=False)
            trailer['XRefStm'] = pos
            self._table(tab, trailer, rev, rng)
        return entries

    def _runs(self, nums, split=False, rng=None):
        runs = []
        for n in sorted(nums):
            if runs and runs[-1][-1] == n - 1 and not (split and rng is not None and rng.random() < 0.3):
                runs[-1].append(n)
            else:
                runs.append([n])
        return runs

    def _table(self, entries, trailer, rev, rng):
        o = self.out
        start = len(o)
        e = dict(entries)
        if not self.starts:
            e.setdefault(0, ('f', 0, 65535))
        eol2 = b'\r\n' if self.eol == b'\r\n' else (b' \n' if self.eol == b'\n' else b' \r')
        o += b'xref' + self.eol
        runs = self._runs(e, rev.split_table, rng)
        if rev.split_table and rng is not None:
            rng.shuffle(runs)
        for run in runs:
            o += b'%d %d' % (run[0], len(run)) + self.eol
            for n in run:
                k, a, g = e[n]
                o += b'%010d %05d %s' % (a, g, b'n' if k == 'n' else b'f') + eol2
        ts = len(o)
        tr = {'Size': max(self.max_num + 1, 1)}
        tr.update(trailer)
        if self.prev is not None and 'Prev' not in trailer:
            tr['Prev'] = self.prev
        o += b'trailer' + (self.style.sep(False) or self.eol)
        st = self.style
        o += st.join(st.tokens(tr)) + self.eol
        self.trailer_spans.append((ts, len(o)))
        self.sections.append(('table', start, len(o)))
        self._finish(start)

    def _xstream(self, entries, trailer, rev, rng, final=True):
        self.max_num += 1
        sn = self.max_num
        start = len(self.out)
        e = dict(entries)
        if final:
            if not self.starts:
                e.setdefault(0, ('f', 0, 65535))
            e[sn] = entries[sn] = ('n', start, 0)
        mx = max([start] + [x[1] for x in e.values()] + [1])
        mi = max([x[2] for x in e.values()] + [1])
        w2 = max(1, (mx.bit_length() + 7) // 8)
        w3 = max(1, (mi.bit_length() + 7) // 8)
        w = [1, w2, w3]
        if rev.w:
            w = [max(1, rev.w[0]), max(w2, rev.w[1]), max(w3, rev.w[2])]
            if rev.w[0] == 0 and all(x[0] == 'n' for x in e.values()):
                w[0] = 0
            if rev.w[2] == 0 and all(x[2] == 0 for x in e.values()):
                w[2] = 0
        runs = self._runs(e, rev.index_split, rng)
        if rev.index_split and rng is not None:
            rng.shuffle(runs)
        rows = []
        for run in runs:
            for n in run:
                k, a, g = e[n]
                t = {'f': 0, 'n': 1, 'c': 2}[k]
                rows.append((t.to_bytes(w[0], 'big') if w[0] else b'') + a.to_bytes(w[1], 'big')
                            + (g.to_bytes(w[2], 'big') if w[2] else b''))
        data = b''.join(rows)
        size = max(self.max_num + 1, 1)
        attrs = {'Type': Name('XRef'), 'Size': size, 'W': w}
        flat = [v for run in runs for v in (run[0], len(run))]
        if flat != [0, size]:
            attrs['Index'] = flat
        attrs.update(trailer)
        if self.prev is not None and 'Prev' not in trailer and final:
            attrs['Prev'] = self.prev
        if rev.xref_pred and rows:
            from . import codecs
            cols = sum(w)
            data = codecs.png_encode(data, 1, cols, 8, lambda i: 2)
            attrs['DecodeParms'] = {'Predictor': 12, 'Columns': cols}
            attrs['Filter'] = Name('FlateDecode')
            data = zlib.compress(data)
        elif rev.xref_filter:
            attrs['Filter'] = Name('FlateDecode')
            data = zlib.compress(data)
        self.emit(sn, 0, Stream(attrs, data, plain=True), encrypt=False)
        if final:
            self.xstreams[sn] = (attrs, b''.join(rows))
        self.sections.append(('stream', start, len(self.out)))
        if final:
            self._finish(start)
        return start

    def _finish(self, start):
        o = self.out
        self.starts.append(start)
        self.prev = start
        o += b'startxref' + self.eol + b'%d' % start + self.eol + b'%%EOF' + self.eol

    def bytes(self):
        return bytes(self.out)


# ---------------------------------------------------------------------------
# simple one-call documents
# ---------------------------------------------------------------------------
HELV = {'Type': Name('Font'), 'Subtype': Name('Type1'), 'BaseFont': Name('Helvetica')}


class Doc:
    """Object-number allocator with a page list; build() writes it."""

    def __init__(self):
        self.objs = {}
        self.n = 0
        self.pages_num = self.alloc()
        self.catalog_num = self.alloc()
        self.kids = []
        self.catalog = {'Type': Name('Catalog'), 'Pages': Ref(self.pages_num)}
        self.trailer = {'Root': Ref(self.catalog_num)}
        self.pages_attrs = {}

    def alloc(self):
        self.n += 1
        return self.n

    def add(self, obj, gen=0):
        n = self.alloc()
        self.objs[n] = (gen, obj)
        return Ref(n, gen)

    def page(self, content=b'', resources=None, mediabox=(0, 0, 612, 792), **extra):
        """content: bytes | list of bytes (several streams) | Ref | None"""
        attrs = {'Type': Name('Page'), 'Parent': Ref(self.pages_num),
                 'Resources': resources if resources is not None else {}}
        if mediabox is not None:
            attrs['MediaBox'] = list(mediabox)
        if isinstance(content, (bytes, bytearray)):
            attrs['Contents'] = self.add(Stream({}, bytes(content)))
        elif isinstance(content, (list, tuple)):
            attrs['Contents'] = [self.add(c if isinstance(c, Stream) else Stream({}, c)) for c in content]
        elif content is not None:
            attrs['Contents'] = content
        attrs.update(extra)
        r = self.add(attrs)
        self.kids.append(r)
        return r

    def objects(self):
        objs = dict(self.objs)
        p = {'Type': Name('Pages'), 'Kids': list(self.kids), 'Count': len(self.kids)}
        p.update(self.pages_attrs)
        objs.setdefault(self.pages_num, (0, p))
        objs.setdefault(self.catalog_num, (0, self.catalog))
        return objs

    def build(self, style=None, rng=None, layout='table', packed=(), enc=None, eol=b'\n', trailer=None, writer=None, **kw):
        w = (writer or Writer)(style=style, eol=eol, enc=enc)
        objs = self.objects()
        tr = dict(self.trailer)
        tr.update(trailer or {})
        if enc is not None:
            n = max(objs) + 1
            w.max_num = max(objs)
            tr.update(enc.trailer())
        w.max_num = max(w.max_num, max(objs))
        if packed == 'all':
            packed = set(objs)
        w.revision(Revision(objs, layout=layout, packed=packed, trailer=tr, **kw), rng)
        self.writer = w
        return w.bytes()


def simple_pdf(content, resources=None, **kw):
    d = Doc()
    d.page(content, resources or {}, **kw)
    return d.build()


def font_resources(doc, **fonts):
    return {'Font': {k: doc.add(v) for k, v in fonts.items()}}


HEXPAIR = re.compile(b'..')
