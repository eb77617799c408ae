"""Random PDF object generators."""
from .pdfgen import Name, Ref


def rand_bytes(r, n):
    k = r.random()
    if k < 0.35:
        return bytes(r.randrange(32, 127) for _ in range(n))
    if k < 0.6:
        return bytes(r.choice(b'()\\\r\n\t\b\x0c ab01789%<>[]/{}') for _ in range(n))
    return bytes(r.randrange(256) for _ in range(n))


def rand_name(r, empty=True):
    k = r.random()
    if k < 0.05 and empty:
        return Name(b'')
    if k < 0.5:
        return Name(bytes(r.choice(b'ABCDEFGHabcdefgh0123456789-_.*') for _ in range(r.randrange(1, 10))))
    if k < 0.7:
        return Name(bytes(r.choice(b' ()<>[]{}/%#ABab12+\t\n\r!~') for _ in range(r.randrange(1, 8))))
    if k < 0.85:
        return Name(''.join(r.choice('\u00e9\u4e2d\u0416\U0001f600aZ') for _ in range(r.randrange(1, 5))))
    return Name(bytes(r.choice([c for c in range(1, 256)]) for _ in range(r.randrange(1, 6))))


def rand_int(r):
    return r.choice((0, 1, -1, r.randrange(-300, 300), r.randrange(-2**31, 2**31), r.randrange(10**6),
                     2**31 - 1, -2**31) + ((2**53 + 1, -2**53 - 1, 2**62 + 1, r.randrange(2**62)) if r.random() < 0.2 else ()))


def rand_real(r):
    return r.choice((0.5, -0.5, 0.25, 1.0, -1.0, 3.75, round(r.uniform(-1000, 1000), r.randrange(0, 6)),
                     round(r.uniform(-1, 1), 4), 100.0))


def rand_atom(r, refs=()):
    k = r.randrange(9)
    if k == 0:
        return None
    if k == 1:
        return r.random() < 0.5
    if k == 2:
        return rand_int(r)
    if k == 3:
        return rand_real(r)
    if k in (4, 5):
        n = r.choice((0, 1, 2, 5, 9, 20, 60))
        if r.random() < 0.02:
            n = r.choice((4090, 5000, 9000))
        return rand_bytes(r, n)
    if k in (6, 7):
        return rand_name(r)
    if refs:
        return Ref(r.choice(refs), r.choice((0, 0, 0, 1, 7, 65535)))
    return rand_int(r)


def rand_obj(r, depth=3, refs=()):
    k = r.random()
    if depth <= 0 or k < 0.45:
        return rand_atom(r, refs)
    if k < 0.72:
        return [rand_obj(r, depth - 1, refs) for _ in range(r.choice((0, 1, 2, 3, 6)))]
    d = {}
    seen = set()
    for _ in range(r.choice((0, 1, 2, 3, 5))):
        n = rand_name(r)
        if n.n in seen:
            continue
        seen.add(n.n)
        d[n] = rand_obj(r, depth - 1, refs)
    return d


def features(o, acc=None):
    """Set of value kinds inside an object."""
    acc = set() if acc is None else acc
    if isinstance(o, dict):
        acc.add('dict')
        for k, v in o.items():
            features(v, acc)
    elif isinstance(o, (list, tuple)):
        acc.add('arr')
        for v in o:
            features(v, acc)
    else:
        acc.add(type(o).__name__)
    return acc


def size(o):
    if isinstance(o, dict):
        return 1 + sum(size(v) for v in o.values())
    if isinstance(o, (list, tuple)):
        return 1 + sum(size(v) for v in o)
    return 1
