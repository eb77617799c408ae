"""Wrong passwords and unsupported protection are refused; permissions are honoured."""
import io
from vlib.harness import Violation
from vlib.pdfgen import Name
from vlib import lib, crypt
from . import c09

ID = 'C10'
LEVEL = 'exploration'
RULE = ('encrypted documents opened with near-miss passwords, with perturbed security dictionaries and with every permission word class; the class of the '
        'error, the permission flags and the extraction gate observed; non-trivial when the password is wrong, the dictionary unsupported or extraction '
        'forbidden, counted by distinct (kind, file, password)')
ASSUMPTIONS = ['a password that the algorithm itself cannot tell from the right one (same first 32 or 127 bytes) is not wrong']
CASES = {'quick': 2000, 'thorough': 25000}
MIN = {'wrong': 5000, 'damaged': 2000, 'unsupported': 2500, 'permissions': 1500, 'gate_closed': 500, 'gate_open': 500, '#perturbations': 8}

ex = lib.ex


def same(alg, a, b):
    if alg.startswith('v5'):
        return a.encode('utf-8', 'surrogatepass')[:127] == b.encode('utf-8')[:127]
    try:
        return crypt.pad(a.encode('latin-1')) == crypt.pad(b.encode('latin-1'))
    except UnicodeEncodeError:
        return False


def near(r, u, o):
    p = r.choice((u, o))
    k = r.randrange(9)
    if k == 0:
        return p + r.choice(('x', ' ', '\x00', '1'))
    if k == 1:
        return p[:-1]
    if k == 2:
        return p.swapcase()
    if k == 3 and p:
        j = r.randrange(len(p))
        return p[:j] + chr((ord(p[j]) ^ 1) or 2) + p[j + 1:]
    if k == 4:
        return ''
    if k == 5:
        return '\u4e2d\u0416'
    if k == 6:
        return p[::-1]
    if k == 7:
        return ' ' + p
    return ''.join(r.choice('abcdefgh') for _ in range(r.randrange(0, 9)))


def perturb(r, e):
    """-> label; changes e.dict so that the protection is not supported"""
    d = e.dict
    k = r.randrange(7)
    if k == 0:
        d['Filter'] = Name(r.choice(('Adobe.PubSec', 'Custom', 'standard')))
        return 'filter'
    if k == 1:
        d['V'] = r.choice((0, 3, 6, 10, -1))
        return 'V'
    if k == 2:
        d['R'] = r.choice((1, 6, 7, 0) + ((4, 5) if e.v < 4 else (2, 3)))
        return 'R'
    if e.v < 4:
        k2 = r.randrange(3)
        if k2 == 0:
            del d['V']
            return 'noV'
        if k2 == 1:
            d['V'] = r.choice((4, 5))
            return 'V-cross'
        del d['Filter']
        return 'nofilter'
    if e.dict['CF']:
        name = list(d['CF'])[0]
        if k == 3:
            d['CF'][name]['CFM'] = Name(r.choice(('None', 'AESV9', 'V3', 'AESV3' if e.v == 4 else 'AESV2', 'V2' if e.v == 5 else 'aesv2')))
            return 'CFM'
        if k == 4:
            d['StmF'] = d['StrF'] = Name('Nowhere')
            return 'undefined-filter'
        if k == 5:
            d['StmF' if r.random() < 0.5 else 'StrF'] = Name('Identity')
            return 'mixed-filters'
    d['V'] = 5 if e.v == 4 else 4
    return 'V-cross'


def expect_error(cls, notcls, fn, what):
    try:
        x = fn()
    except cls as err:
        if notcls is not None and isinstance(err, notcls):
            raise Violation('%s: raised %r' % (what, err))
        return
    raise Violation('%s: not refused, got %r' % (what, x))


def case(r, i, tier, obs):
    k = i % 4
    if k in (0, 1):
        data, model, e, user, owner, text = c09.make(r)
        obs.artifact('in.pdf', data)
        for _ in range(8):
            pw = near(r, user, owner)
            if same(e.alg, pw, user) or same(e.alg, pw, owner):
                obs.count('equivalent')
                continue
            what = '%s, password %r (user %r, owner %r)' % (e.alg, pw, user, owner)
            expect_error(ex.PDFPasswordIncorrect, None, lambda: lib.open_doc(data, password=pw), what)
            if r.random() < 0.2:
                expect_error(ex.PDFPasswordIncorrect, None, lambda: lib.pages(data, password=pw), what)
                if not user == '' and not owner == '':
                    expect_error(ex.PDFPasswordIncorrect, None, lambda: lib.pages(data), what + ' default')
            obs.count('wrong')
            obs.nontrivial(('w', data, pw))
        # no password opens a file whose check values are damaged
        what = []

        def damage(e):
            e.id0 = e.id0
            keys = ('U',) if e.v < 5 else ('U', 'O')
            how = r.choice(('zero', 'empty', 'short', 'flip', 'high'))
            what.append(how)
            for key in keys:
                v = e.dict[key]
                n = 32 if e.v == 5 else 16
                if how == 'zero':
                    v = bytes(len(v))
                elif how == 'empty':
                    v = b''
                elif how == 'short':
                    v = v[:r.randrange(1, n)]
                elif how == 'flip':
                    j = r.randrange(n)
                    v = v[:j] + bytes([v[j] ^ 1]) + v[j + 1:]
                else:
                    v = b'\xff' * len(v)
                e.dict[key] = v
        data, model, e, user, owner, text = c09.make(r, twist=damage)
        obs.artifact('in.pdf', data)
        for pw in (user, owner, near(r, user, owner), ''):
            try:
                lib.open_doc(data, password=pw)
            except ex.PDFEncryptionError:
                obs.count('damaged')
                continue
            raise Violation('%s, check values damaged (%s): opened with %r' % (e.alg, what[0], pw))
        return
    if k == 2:
        for _ in range(3):
            label = []
            data, model, e, user, owner, text = c09.make(r, twist=lambda e: label.append(perturb(r, e)))
            obs.artifact('in.pdf', data)
            what = '%s with %s perturbed: %r' % (e.alg, label[0], {k: v for k, v in e.dict.items() if k not in 'OUE'})
            for pw in (user, owner):
                expect_error(ex.PDFEncryptionError, ex.PDFPasswordIncorrect, lambda: lib.open_doc(data, password=pw), what)
                obs.count('unsupported')
            if r.random() < 0.3:
                expect_error(ex.PDFEncryptionError, ex.PDFPasswordIncorrect, lambda: lib.pages(data, password=user), what)
            obs.distinct('perturbations', label[0])
            obs.nontrivial(('u', data))
        return
    for _ in range(4):
        p = r.randrange(-2 ** 31, 2 ** 31) if r.random() < 0.5 else r.choice((-4, -8, -12, -20, -24, -28, -32, -36, 0, 4, 8, 16, 28, -1, -64, -2 ** 31))
        data, model, e, user, owner, text = c09.make(r, p=p)
        obs.artifact('in.pdf', data)
        pw = r.choice((user, owner))
        doc = lib.open_doc(data, password=pw)
        got = (doc.is_printable, doc.is_modifiable, doc.is_extractable)
        want = (bool(p & 4), bool(p & 8), bool(p & 16))
        obs.count('permissions')
        if got != want:
            raise Violation('P=%d: print/modify/extract reported %r, file says %r' % (p, got, want))
        kw = r.choice(({}, {'check_extractable': True}))
        if want[2]:
            obs.count('gate_open')
            n = len(lib.pages(data, password=pw, **kw))
            m = len(list(lib.PDFPage.get_pages(io.BytesIO(data), password=pw, **kw)))
            if (n, m) != (1, 1):
                raise Violation('P=%d: %d, %d pages delivered' % (p, n, m))
        else:
            obs.count('gate_closed')
            obs.nontrivial(('g', data))
            expect_error(ex.PDFTextExtractionNotAllowed, None, lambda: lib.pages(data, password=pw, **kw), 'P=%d' % p)
            expect_error(ex.PDFTextExtractionNotAllowed, None, lambda: list(lib.PDFPage.get_pages(io.BytesIO(data), password=pw, **kw)), 'P=%d' % p)
            n = len(lib.pages(data, password=pw, check_extractable=False))
            if n != 1:
                raise Violation('P=%d: %d pages with the gate off' % (p, n))
