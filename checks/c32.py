"""The command line converts like the library does."""
import os
import shutil
import subprocess
import sys
import tempfile
from vlib import conv, harness
from vlib.harness import Violation, REPO
from vlib.conv import want, convert_file
from vlib.crypt import Enc
from vlib.docgen import rich
from checks.c29 import snapshot, changes

ID = 'C32'
LEVEL = 'exploration'
RULE = ('the command run as a process of its own in a scratch folder, over formats, output places, page selections, page limits, passwords, encodings, caching and hostile names; its output '
        'compared byte for byte with the library conversion with the same options, the folder before with the folder after; wrong usage (unknown options, formats and numbers, no input, several '
        'inputs, the input as output, wrong password) must exit non-zero and change nothing; non-trivial cases counted by distinct option set')
ASSUMPTIONS = ['documents without images: the names of images hold an address']
CASES = {'quick': 420, 'thorough': 6000}
MIN = {'converted': 180, 'to_stdout': 40, 'to_file': 100, 'by_extension': 15, 'pagenos': 30, 'maxpages': 30, 'password': 15, 'codec': 40, 'usage_errors': 90, '#errors': 12}
TYPES = ('text', 'html', 'xml', 'json', 'yaml')
EXT = {'.htm': 'html', '.html': 'html', '.xml': 'xml', '.json': 'json', '.yml': 'yaml', '.yaml': 'yaml'}
TOOL = os.path.join(REPO, 'tools', 'pdfconvert.py')
ALARM = 60


def command(args, cwd, tmp):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', TMPDIR=tmp, PYTHONIOENCODING=os.environ.get('PYTHONIOENCODING', ''))
    p = subprocess.run([sys.executable, TOOL] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50)
    return p


def document(r):
    pw = r.choice((None, None, None, 'user', 'p\u00e9 w', '')) if r.random() < 0.5 else None
    enc = Enc(r, r.choice(('rc4-40', 'rc4', 'v4-aes')), pw) if pw is not None else None
    from vlib.hostile import hostile_font
    out = rich(r, images=False, npages=r.choice((1, 2, 3, 5)), size=(2, 5), enc=enc, fontf=hostile_font)
    return out, pw


def case(r, i, tier, obs):
    out, pw = document(r)
    root = tempfile.mkdtemp(prefix='c32', dir=harness.tmpdir())
    tmp = tempfile.mkdtemp(prefix='t32', dir=harness.tmpdir())
    ref = tempfile.mkdtemp(prefix='r32', dir=harness.tmpdir())
    obs.artifact('in.pdf', out.pdf)
    try:
        name = r.choice(('in.pdf', 'a b.pdf', 'x', 'caf\u00e9.pdf', 'in.html', 'sub/in.pdf'))
        os.mkdir(os.path.join(root, 'sub'))
        os.mkdir(os.path.join(root, 'sub.json'))
        with open(os.path.join(root, name), 'wb') as f:
            f.write(out.pdf)
        with open(os.path.join(root, 'other.pdf'), 'wb') as f:
            f.write(out.pdf)
        if i % 3:
            convert_case(r, obs, out, pw, name, root, tmp, ref)
        else:
            usage_case(r, obs, out, pw, name, root, tmp)
        left = os.listdir(tmp)
        want(not left, 'left in the folder for temporary files: %r', left)
    finally:
        for d in (root, tmp, ref):
            shutil.rmtree(d)


def convert_case(r, obs, out, pw, name, root, tmp, ref):
    opts, args, used = {}, [], []

    def opt(short, long, value):
        k = r.random()
        if k < 0.4:
            args.append([short, value])
        elif k < 0.6:
            args.append([short + value] if value and not value.startswith('-') else [short, value])
        elif k < 0.8:
            args.append([long, value])
        else:
            args.append([long + '=' + value])
    if pw:
        opt('-P', '--password', pw)
        opts['password'] = pw
        used.append('password')
    if r.random() < 0.35:
        sel = [r.randrange(out.npages) + 1 for _ in range(r.choice((1, 2, 3)))]
        opt('-p', '--pagenos', ','.join(map(str, sel)))
        opts['pagenos'] = [s - 1 for s in sel]
        used.append('pagenos')
    if r.random() < 0.35:
        m = r.choice((0, 1, 2, 10))
        opt('-m', '--maxpages', str(m))
        opts['maxpages'] = m
        used.append('maxpages')
    if r.random() < 0.2:
        args.append([r.choice(('-C', '--disable-caching'))])
        opts['caching'] = False
    t = r.choice(TYPES)
    codec = r.choice(('utf-8', 'utf-8', 'utf-16', 'utf-8-sig'))
    if t in ('json', 'yaml', 'xml', 'html') and r.random() < 0.3:
        codec = 'ascii'
    if codec != 'utf-8' or r.random() < 0.1:
        opt('-c', '--codec', codec)
        opts['codec'] = codec
        used.append('codec')
    place = r.choice(('stdout', 'dash', 'file', 'file', 'file', 'ext'))
    target = None
    if place == 'ext':
        e = r.choice(sorted(EXT))
        t = EXT[e]
        if codec == 'ascii' and t == 'text':
            codec = 'utf-8'
        target = 'res' + e
        opt('-o', '--output-file', target)
        if r.random() < 0.3:
            opt('-t', '--output-type', 'text')
    else:
        if t != 'text' or r.random() < 0.5:
            opt('-t', '--output-type', t)
        if place == 'dash':
            opt('-o', '--output-file', '-')
        elif place == 'file':
            target = r.choice(('res', 'res.' + t, 'a.xml.text', 'sub.json/res', 'b.html.out', '.yaml.x', 'res.xmls', 'json', 'sub/res.txt', 'r\u00e9s.out', 'res.pdf', '.' + t))
            if t == 'text' and '.' in target and os.path.splitext(target)[1] in EXT:
                target = 'res'
            opt('-o', '--output-file', target)
    if target and r.random() < 0.3:
        with open(os.path.join(root, target), 'wb') as f:
            f.write(b'old ' * 20000)
    r.shuffle(args)
    words = [w for a in args for w in a]
    where = name if r.random() < 0.5 else os.path.join(root, name)
    k = r.choice([0, len(words)])
    words[k:k] = [where]
    to = os.path.join(ref, 'out.' + t)
    try:
        convert_file(os.path.join(root, name), to, out_type=t, **opts)
        with open(to, 'rb') as f:
            exp = f.read()
    except Exception as e:
        if harness.from_pkg(e.__traceback__):
            exp = e
        else:
            raise
    before = snapshot(root)
    p = command(words, root, tmp)
    after = snapshot(root)
    ch = changes(before, after)
    if isinstance(exp, Exception):
        obs.count('library_refuses')
        want(p.returncode != 0, 'exit 0 for %r where the library raises %r', words, exp)
        want(not ch, 'failed, but files changed: %r', ch)
        return
    want(p.returncode == 0, 'exit %d for %r: %s', p.returncode, words, p.stderr.decode('utf-8', 'replace')[-400:])
    obs.count('converted')
    for u in used:
        obs.count(u)
    if target is None:
        want(not ch, 'output to stdout, but files changed: %r', ch)
        got = p.stdout
        obs.count('to_stdout')
    else:
        rel = os.path.normpath(target)
        want(ch in ([rel], []) and rel in after, '%r changed files %r', words, ch)
        want(p.stdout == b'', 'output also on stdout: %r', p.stdout[:200])
        got = after[rel][1]
        obs.count('to_file')
        if place == 'ext':
            obs.count('by_extension')
    want(got == exp, '%r gives %d bytes, the library %d: differs at %r', words, len(got), len(exp),
         next(((k, got[max(0, k - 30):k + 30], exp[max(0, k - 30):k + 30]) for k, (a, b) in enumerate(zip(got, exp)) if a != b), 'the end'))
    obs.nontrivial(sorted(map(repr, args)))


def usage_case(r, obs, out, pw, name, root, tmp):
    t = r.choice(TYPES)
    dst = r.choice(('res.' + t, 'sub/res', 'other.pdf'))
    base = ['-t', t, '-o', dst, name] + (['-P', pw] if pw else [])
    kinds = ['option', 'format', 'maxpages', 'pagenos', 'nofile', 'several', 'missing', 'same', 'samelink', 'folder', 'value', 'codec']
    if pw:
        kinds += ['password'] * 3
    k = r.choice(kinds)
    if k == 'option':
        a = base + [r.choice(('--bogus', '-z', '--output-types=html', '-Z3'))]
    elif k == 'format':
        a = [x if x != t else r.choice(('pdf', 'HTML', 'docx', '', 'htm')) for x in base]
    elif k == 'maxpages':
        a = base + ['-m', r.choice(('x', '1.5', '', '1,2'))]
    elif k == 'pagenos':
        a = base + ['-p', r.choice(('x', '1-2', '1,,2', 'a,1', '1.0'))]
    elif k == 'nofile':
        a = ['-t', t, '-o', dst]
    elif k == 'several':
        a = base + ['other.pdf']
    elif k == 'missing':
        a = ['-t', t, '-o', dst, r.choice(('absent.pdf', 'sub/absent.pdf'))]
    elif k in ('same', 'samelink'):
        dst = name
        if k == 'samelink':
            dst = 'twin.' + r.choice(('pdf', t))
            os.symlink(os.path.join(root, name), os.path.join(root, dst))
        a = ['-t', t, '-o', r.choice((dst, os.path.join(root, dst), './' + dst)), name] + (['-P', pw] if pw else [])
    elif k == 'folder':
        a = ['-t', t, '-o', dst, 'sub'] + (['-P', pw] if pw else [])
    elif k == 'value':
        a = base + [r.choice(('-c', '-m', '-P', '-O'))]
    elif k == 'codec':
        a = base + ['-c', 'no-such-codec']
    else:
        a = ['-t', t, '-o', dst, name, '-P', pw + 'x']
    before = snapshot(root)
    p = command(a, root, tmp)
    ch = changes(before, snapshot(root))
    want(p.returncode != 0, '%s: exit 0 for %r', k, a)
    want(p.returncode > 0, '%s: killed by signal %d for %r', k, -p.returncode, a)
    want(not ch, '%s: %r changed files %r', k, a, ch)
    obs.count('usage_errors')
    obs.distinct('errors', k)
    obs.nontrivial(('usage', k, t))
