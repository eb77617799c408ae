"""Text conversion is complete, and conversion writes where it was told."""
import os
import pathlib
import shutil
import tempfile
from vlib import conv, harness, lib
from vlib.harness import Violation
from vlib.conv import want, convert_file
from vlib.docgen import rich
from pdfmajor.execptions import ConverterException

ID = 'C29'
LEVEL = 'exploration'
RULE = ('(a) random documents with hostile text converted to text in several encodings, the bytes compared with the pages, forms and characters the interpreter reports; (b) conversions to all '
        'formats with given and derived output names, existing outputs, inputs reached by links, unknown formats and mismatched names inside a scratch folder that is compared before and '
        'after; non-trivial when text in a form or outside ASCII is converted or an output name is derived, an input protected or a format refused, counted by distinct situation')
ASSUMPTIONS = ['the items themselves are decided by C11-C23', 'text that the requested encoding cannot hold is not covered']
CASES = {'quick': 2400, 'thorough': 40000}
MIN = {'pages': 1000, 'nasty_chars': 1500, 'in_form': 500, 'encoded_other': 150, 'derived': 120, 'given': 140, 'refused_same': 140, 'refused_type': 120, 'refused_name': 60,
       'replaced': 60, 'folders': 700}
TYPES = ('html', 'xml', 'json', 'yaml', 'yml', 'text')


def text_case(r, obs):
    d = conv.document(r)
    obs.artifact('in.pdf', d.pdf)
    exp = conv.expected(d.pdf, **d.opts)
    parts = []

    def f(k):
        if k['t'] == 'text-block':
            parts.extend(b['text'] for b in k['kids'])
        elif k['t'] == 'xobject':
            for c in k['kids']:
                f(c)
    for p in exp:
        parts.append('========== [ page %d ] ==========\n' % p['id'])
        for k in p['kids']:
            f(k)
        parts.append('\n')
    text = ''.join(parts)
    codec = r.choice(('utf-8', 'utf-8', 'utf-16', 'utf-8-sig', 'utf-32-le', 'ascii', 'latin-1', 'cp1252', 'utf-7'))
    try:
        data = text.encode(codec)
    except UnicodeEncodeError:
        codec = 'utf-8'
        data = text.encode(codec)
    if codec != 'utf-8':
        obs.count('encoded_other')
    got = conv.convert(d.pdf, 'text', codec=codec, **d.opts)
    if got != data:
        try:
            got = got.decode(codec)
        except UnicodeDecodeError:
            raise Violation('text is not %s: %r' % (codec, got[:200]))
        # some encodings have several spellings
        if got != text:
            k = next((k for k, (a, b) in enumerate(zip(text, got)) if a != b), min(len(text), len(got)))
            raise Violation('%s text differs at %d: expected %r got %r' % (codec, k, text[max(0, k - 20):k + 40], got[max(0, k - 20):k + 40]))
    if conv.note(obs, exp):
        obs.nontrivial(d.pdf)


def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ('dir',)
            else:
                with open(p, 'rb') as f:
                    out[rel] = ('file', f.read(), os.stat(p).st_ino)
    return out


def changes(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


NAMES = ('in.pdf', 'in', 'a.b.pdf', 'in.PDF', 'in.pdf.pdf', '.pdf', 'caf\u00e9 \u4e2d.pdf', 'a b.pdf', 'html', 'x.html', 'in.json', 'doc.yaml', 'text', 'my.text', 'in.xml', '-o.pdf', '%s.pdf', 'html.pdf',
         "it's.pdf", 'in.', 'a.pdf.x', 'pdf')


def stem(name):
    """what precedes the extension of a file name"""
    head, tail = os.path.split(name)
    k = tail.rfind('.')
    if k <= 0 or not tail[:k].strip('.'):
        return name
    return os.path.join(head, tail[:k])


def path_case(r, obs):
    out = rich(r, images=False, npages=r.choice((1, 2)), size=(2, 5), outlines=False)
    root = tempfile.mkdtemp(prefix='c29', dir=harness.tmpdir())
    here = os.getcwd()
    obs.count('folders')
    try:
        os.mkdir(os.path.join(root, 'sub.pdf'))
        os.mkdir(os.path.join(root, 'out'))
        name = r.choice(NAMES)
        if r.random() < 0.3:
            name = os.path.join('sub.pdf', name)
        with open(os.path.join(root, name), 'wb') as f:
            f.write(out.pdf)
        t = r.choice(TYPES)
        # a reference conversion, to its own folder
        ref = os.path.join(root, 'out', 'ref.' + t)
        rel = r.random() < 0.5
        if rel:
            os.chdir(root)
        spell = name if rel else os.path.join(root, name)
        src = pathlib.Path(spell) if r.random() < 0.15 else spell
        what = r.choice(('derived', 'derived', 'given', 'given', 'same', 'same', 'type', 'type', 'name'))
        for n in r.sample(('other.pdf', 'sub.pdf/old.html', 'in.xml~', 'keep.txt'), 2):
            with open(os.path.join(root, n), 'wb') as f:
                f.write(b'untouched')
        if what == 'derived':
            target = stem(name) + '.' + t
            if target == name:
                what = 'same-derived'
            elif r.random() < 0.4:
                with open(os.path.join(root, target), 'wb') as f:
                    f.write(b'old content ' * 5000)
                obs.count('replaced')
        if what == 'given':
            target = r.choice(('out/res.', 'sub.pdf/r.x.', 'res-', 'caf\u00e9.', 'in.pdf.')) + t
            if r.random() < 0.4:
                with open(os.path.join(root, target), 'wb') as f:
                    f.write(b'old content ' * 5000)
                obs.count('replaced')
        before = snapshot(root)
        if what in ('derived', 'given'):
            kw = {}
            if what == 'given':
                kw['output_file'] = target if rel else os.path.join(root, target)
                if r.random() < 0.2:
                    kw['output_file'] = pathlib.Path(kw['output_file'])
            convert_file(src, out_type=t, **kw)
            after = snapshot(root)
            ch = changes(before, after)
            want(ch == [os.path.normpath(target)] or (ch == [] and target in after), '%s input %r type %s: files changed %r expected %r', what, name, t, ch, target)
            ext = {'yml': 'yaml'}.get(t, t)
            conv_to = os.path.join(root, 'out', 'ref.' + ext)
            convert_file(os.path.join(root, name), conv_to, out_type=ext)
            with open(conv_to, 'rb') as f:
                data = f.read()
            with open(os.path.join(root, target), 'rb') as f:
                got = f.read()
            want(got == data and data, '%s input %r type %s: the output is not the document (%d bytes, expected %d)', what, name, t, len(got), len(data))
            obs.count(what)
            obs.nontrivial((what, name, t, rel))
            return
        kw = {'out_type': t}
        if what == 'same-derived':
            dst = None
            what = 'same'
        elif what == 'same':
            # the input under another name that ends in the format
            k = r.choice(('link', 'hard', 'path', 'dots', 'updown'))
            base = os.path.join(root, 'twin.' + t)
            if k == 'link':
                os.symlink(os.path.join(root, name), base)
                dst = base
            elif k == 'hard':
                os.link(os.path.join(root, name), base)
                dst = base
            else:
                os.rename(os.path.join(root, name), base)
                src = base
                dst = {'path': base, 'dots': os.path.join(root, '.', 'twin.' + t), 'updown': os.path.join(root, 'out', '..', 'twin.' + t)}[k]
                if k == 'path' and r.random() < 0.5:
                    dst = None
            if rel and dst is not None and r.random() < 0.5:
                dst = os.path.relpath(dst, root)
            before = snapshot(root)
        elif what == 'type':
            kw['out_type'] = r.choice(('htm', 'HTML', 'pdf', 'txt', 'x', 'docx', 'html ', 'xhtml', 'ml', 'son', 'ht', '../x', 'n'))
            dst = r.choice((None, os.path.join(root, 'res.' + kw['out_type']), os.path.join(root, 'other.' + kw['out_type']), os.path.join(root, 'keep.html')))
        else:
            dst = os.path.join(root, r.choice(('res.pdf', 'other.pdf', 'out/x', 'res.' + t + '.bak', 'sub.pdf/old')))
        if dst is not None:
            kw['output_file'] = dst
        try:
            convert_file(src, **kw)
        except ConverterException:
            pass
        else:
            ch = changes(before, snapshot(root))
            raise Violation('no error for %s: input %r output %r type %r (changed: %r)' % (what, str(src), dst, kw['out_type'], ch))
        ch = changes(before, snapshot(root))
        want(not ch, '%s refused, but files changed: %r (input %r output %r type %r)', what, ch, name, dst, kw['out_type'])
        obs.count('refused_' + what)
        obs.nontrivial((what, name, kw['out_type'], str(dst)[len(root):]))
    finally:
        os.chdir(here)
        shutil.rmtree(root)


def case(r, i, tier, obs):
    (text_case if i % 2 else path_case)(r, obs)
