"""Runner shared by all checks: seeded cases on several processes, watchdogs,
observation counters, verdicts, evidence and replay files."""
import base64
import hashlib
import importlib
import json
import logging
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PDFMAJOR_REPO', '/repo')
PKG = os.path.join(REPO, 'pdfmajor') + os.sep


class Violation(Exception):
    """The property was seen broken. key names the mechanism (known findings)."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


class StepBudget(BaseException):
    pass


def h8(v):
    if not isinstance(v, (bytes, bytearray)):
        v = repr(v).encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(v, digest_size=8).digest(), 'big')


class Obs:
    """What the monitors saw during one run."""

    def __init__(self):
        self.counts = {}
        self.sets = {}
        self.nt = set()
        self.samples = []
        self.art = {}
        self.max = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def distinct(self, name, value):
        self.sets.setdefault(name, set()).add(h8(value))

    def peak(self, name, v):
        if v > self.max.get(name, -1):
            self.max[name] = v

    def nontrivial(self, value):
        self.nt.add(h8(value))

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(value if isinstance(value, (str, int, float, list, dict)) else repr(value)[:1500])

    def artifact(self, name, data):
        self.art[name] = data

    def merge(self, o):
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        for k, v in o.max.items():
            self.peak(k, v)
        self.nt |= o.nt
        for s in o.samples:
            if len(self.samples) < 4:
                self.samples.append(s)


# ---------------------------------------------------------------------------
_tmp = None


def tmpdir():
    """Per-process scratch folder."""
    global _tmp
    if _tmp is None or _tmp[0] != os.getpid():
        base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        _tmp = (os.getpid(), tempfile.mkdtemp(prefix='w', dir=base))
    return _tmp[1]


def write_tmp(data, name='in.pdf'):
    p = os.path.join(tmpdir(), name)
    with open(p, 'wb') as f:
        f.write(data)
    return p


def from_pkg(tb):
    """Did the exception pass through the code under test?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG):
            return True
        tb = tb.tb_next
    return False


def short_tb(e):
    fr = traceback.extract_tb(e.__traceback__)
    loc = [f for f in fr if f.filename.startswith(PKG)]
    where = '%s:%d in %s' % (os.path.relpath(loc[-1].filename, REPO), loc[-1].lineno, loc[-1].name) if loc else '?'
    return '%s: %s [%s]' % (type(e).__name__, str(e)[:300], where)


class steps:
    """Deterministic step counter over the code under test (sys.monitoring)."""

    def __init__(self, budget=None):
        self.budget = budget
        self.n = 0

    def __enter__(self):
        m = sys.monitoring
        self.m = m
        # counters may be nested: the watchdog's around a check's own
        self.tool = next(t for t in (4, 3) if m.get_tool(t) is None)
        m.use_tool_id(self.tool, 'steps')
        E = m.events

        def hit(code, *a):
            if not code.co_filename.startswith(PKG):
                return m.DISABLE
            self.n += 1
            if self.budget is not None and self.n > self.budget:
                raise StepBudget(self.n)
        for ev in (E.PY_START, E.JUMP, E.BRANCH, E.PY_RESUME):
            m.register_callback(self.tool, ev, hit)
        m.set_events(self.tool, E.PY_START | E.JUMP | E.BRANCH | E.PY_RESUME)
        return self

    def __exit__(self, *a):
        self.m.set_events(self.tool, 0)
        for ev in (self.m.events.PY_START, self.m.events.JUMP, self.m.events.BRANCH, self.m.events.PY_RESUME):
            self.m.register_callback(self.tool, ev, None)
        self.m.free_tool_id(self.tool)
        return False


STEP_BUDGET = 100000000
CASE_ALARM = 25


def _alarm(signum, frame):
    raise CaseTimeout()


# A monitor that cannot take apart what the code under test delivered (None for a stream, a list that is too short)
# ends in one of these; on the unchanged tree none is ever raised.
UNJUDGEABLE = (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, AssertionError, FileNotFoundError)


def run_case(mod, seed, i, tier, obs, alarm=None):
    """-> None | ('violation', msg, key) | ('error', text) | ('slow', text)"""
    alarm = alarm or getattr(mod, 'ALARM', CASE_ALARM)

    def rng():
        return random.Random('%s/%d/%d' % (mod.ID, seed, i))
    obs.art = {}
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(alarm)
        try:
            mod.case(rng(), i, tier, obs)
        finally:
            signal.alarm(0)
        return None
    except Violation as e:
        return ('violation', str(e), e.key)
    except CaseTimeout:
        signal.alarm(0)
    except StepBudget as e:
        return ('violation', 'step budget exceeded in the code under test', None)
    except (KeyboardInterrupt, SystemExit) as e:
        if from_pkg(e.__traceback__):
            return ('violation', 'unexpected ' + short_tb(e), None)
        raise
    except MemoryError as e:
        return ('violation', 'memory limit exceeded: ' + short_tb(e), None)
    except BaseException as e:
        if from_pkg(e.__traceback__):
            return ('violation', 'unexpected exception from the code under test: ' + short_tb(e), None)
        if isinstance(e, UNJUDGEABLE):
            return ('violation', 'what was delivered has another form than the property gives it: %s'
                    % traceback.format_exc()[-500:], None)
        return ('error', traceback.format_exc())
    # The watchdog fired: decide on logical steps, not on the clock.
    try:
        signal.alarm(300)
        with steps(STEP_BUDGET) as st:
            mod.case(rng(), i, tier, Obs())
        return ('slow', 'case %d exceeded the watchdog but finished in %d steps' % (i, st.n))
    except StepBudget:
        return ('violation', 'no result within %d steps of the code under test' % STEP_BUDGET, 'steps')
    except Violation as e:
        return ('violation', str(e), e.key)
    except CaseTimeout:
        return ('slow', 'case %d exceeded the watchdog twice' % i)
    except BaseException as e:
        if from_pkg(e.__traceback__):
            return ('violation', 'unexpected exception from the code under test: ' + short_tb(e), None)
        return ('error', traceback.format_exc())
    finally:
        signal.alarm(0)


def quiet():
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')


def setup_case(mod, seed, tier, obs):
    class S:
        ID = mod.ID
        case = staticmethod(lambda r, i, t, o: mod.setup() if hasattr(mod, 'setup') else None)
    return run_case(S, seed, 0, tier, obs)


def worker(mod, seed, tier, w, nw, n, deadline, outpath):
    global _tmp
    _tmp = None
    quiet()
    lim = getattr(mod, 'MEM', 3 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    obs = Obs()
    res = []
    done = 0
    bad = 0
    cut = False
    try:
        first = setup_case(mod, seed, tier, obs)
        if first is not None:
            res.append(('setup', first, obs.art))
            n = 0
        for i in range(w, n, nw):
            if time.time() > deadline:
                cut = True
                break
            r = run_case(mod, seed, i, tier, obs)
            done += 1
            if r is not None:
                res.append((i, r, obs.art))
                if r[0] != 'slow' and (r[0] == 'error' or r[2] is None or r[2] == 'steps'):
                    bad += 1
                if bad >= 3:
                    break
        obs.art = {}
    except BaseException:
        res.append((-1, ('error', traceback.format_exc()), {}))
    with open(outpath, 'wb') as f:
        pickle.dump((obs, res, done, cut), f)
    if _tmp:
        shutil.rmtree(_tmp[1], ignore_errors=True)


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                if rest.startswith('key='):
                    k, _, text = rest[4:].partition(' ')
                    out[k] = text
    return out


def main(prop, argv):
    mod = importlib.import_module('checks.' + prop.lower())
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for a in argv:
        if a in ('quick', 'thorough'):
            tier = a
    t0 = time.time()
    n = mod.CASES[tier]
    for a in argv:
        if a.startswith('n='):
            n = int(a[2:])
    nw = min(8, os.cpu_count() or 1, max(1, n))
    if hasattr(mod, 'WORKERS'):
        nw = min(nw, mod.WORKERS)
    cap = getattr(mod, 'CAP', {'quick': 240, 'thorough': 1500})[tier]
    deadline = t0 + cap
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.environ['VERIF_SCRATCH'] = scratch
    quiet()
    known = load_known(prop)
    total = Obs()
    results = []
    done = 0
    cut = False
    errors = []
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare()
        pids = []
        sys.stdout.flush()
        for w in range(nw):
            out = os.path.join(scratch, 'r%d' % w)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    worker(mod, seed, tier, w, nw, n, deadline, out)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            pids.append((pid, out))
        for pid, out in pids:
            _, st = os.waitpid(pid, 0)
            if not os.path.exists(out) and os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
                results.append(('crash', ('violation', 'the interpreter process crashed with signal %d' % os.WTERMSIG(st), None), {}))
                continue
            if not os.path.exists(out):
                errors.append('worker ended with status %d and no result' % st)
                continue
            with open(out, 'rb') as f:
                obs, res, d, c = pickle.load(f)
            total.merge(obs)
            results.extend(res)
            done += d
            cut = cut or c
        # deterministic single probes (known findings, fixed defects, extreme inputs)
        if hasattr(mod, 'PROBES'):
            for name, fn in mod.PROBES:
                class P:
                    ID = prop
                    case = staticmethod(lambda r, i, t, o, fn=fn: fn(o))
                P.ALARM = getattr(mod, 'ALARM', CASE_ALARM)
                r = run_case(P, seed, 0, tier, total)
                total.count('probes')
                if r is not None:
                    results.append(('probe:' + name, r, total.art))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    viol = []
    hit = {}
    for i, r, art in results:
        if r[0] == 'violation':
            if r[2] is not None and r[2] in known:
                hit[r[2]] = hit.get(r[2], 0) + 1
            else:
                viol.append((i, r, art))
        elif r[0] == 'error':
            errors.append('case %s: %s' % (i, r[1]))
        else:
            total.count('slow_cases')
            print('NOTE', r[1])
    wall = time.time() - t0
    cov = {'evaluations': done + total.counts.get('probes', 0),
           'distinct_nontrivial': len(total.nt),
           'rule': mod.RULE,
           'samples': total.samples,
           'observed': dict(sorted(total.counts.items())),
           'distinct': {k: len(v) for k, v in sorted(total.sets.items())},
           'peaks': total.max,
           'cases_planned': n, 'cut_by_deadline': cut,
           'known_findings_hit': hit}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(wall, 2),
          'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s seed=%d cases=%d/%d nontrivial=%d wall=%.1fs' % (prop, tier, seed, done, n, len(total.nt), wall))
    print('  observed', json.dumps(cov['observed'])[:1500])
    print('  distinct', json.dumps(cov['distinct'])[:600], 'peaks', json.dumps(total.max)[:300])
    for k, text in known.items():
        if k in hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if viol:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        for j, (i, r, art) in enumerate(viol[:5]):
            path = os.path.join(rd, '%s-%s-%s.json' % (prop, seed, str(i).replace(':', '_')))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': i, 'message': r[1],
                           'artifacts': {k: base64.b64encode(v).decode() if isinstance(v, (bytes, bytearray)) else repr(v)
                                         for k, v in art.items()}}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   ', r[1][:1500])
        return 1
    if errors:
        for e in errors[:3]:
            print('CHECK ERROR', e)
        return 2
    miss = []
    for k, v in getattr(mod, 'MIN', {}).items():
        if k.startswith('#'):
            got = len(total.sets.get(k[1:], ()))
        else:
            got = total.counts.get(k, 0)
        if got < v:
            miss.append('%s: %d < %d' % (k, got, v))
    if miss and 'nomin' not in argv:
        print('INCONCLUSIVE: monitors observed too little: ' + '; '.join(miss))
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module('checks.' + d['property'].lower())
    quiet()
    obs = Obs()
    if hasattr(mod, 'prepare'):
        mod.prepare()
    if hasattr(mod, 'setup'):
        mod.setup()
    if isinstance(d['case'], str) and d['case'].startswith('probe:'):
        fn = dict(mod.PROBES)[d['case'][6:]]

        class P:
            ID = d['property']
            case = staticmethod(lambda r, i, t, o: fn(o))
        r = run_case(P, d['seed'], 0, d['tier'], obs)
    else:
        r = run_case(mod, d['seed'], d['case'], d['tier'], obs)
    for k, v in obs.art.items():
        if isinstance(v, (bytes, bytearray)):
            p = os.path.join('/tmp', 'replay-' + os.path.basename(k))
            open(p, 'wb').write(v)
            print('artifact', p)
        else:
            print(k, '=', v)
    print(r)
    shutil.rmtree(tmpdir(), ignore_errors=True)
    return 0 if r is None else 1
