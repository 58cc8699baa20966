"""Runner shared by every check: sharded workloads, monitors' verdicts, evidence.

Verdicts are three-valued:
  exit 0  held on everything observed
  exit 1  violated, with a "VIOLATION property=<id> replay=<path>" line
  exit 2  inconclusive (harness error, watchdog, decisive monitor never reached)
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import queue
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WV_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
EVIDENCE = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Violation(Exception):
    """The monitor refuted the property; key names a mechanism (known findings)."""
    def __init__(self, msg, key=None, **witness):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key
        self.witness = witness


class Inconclusive(Exception):
    """Nothing can be said about this case (harness problem, not the repository's)."""


class NonTermination(BaseException):
    pass


def short(obj, limit=300):
    s = obj if isinstance(obj, str) else repr(obj)
    if len(s) > limit:
        s = s[:limit // 2] + '...[%d]...' % len(s) + s[-limit // 2:]
    return s


def jsonable(obj):
    if isinstance(obj, (bytes, bytearray)):
        if len(obj) <= 6000:
            return {'bytes': bytes(obj).decode('latin-1')}
        return {'bytes_head': bytes(obj[:3000]).decode('latin-1'), 'len': len(obj),
                'sha1': hashlib.sha1(obj).hexdigest()}
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


class Ctx(object):
    """What one case's monitors report to."""
    def __init__(self, tier, tmp):
        self.tier = tier
        self.tmp = tmp
        self.counters = collections.Counter()
        self.sig = None
        self.sample = None
        self.state = {}

    def ev(self, name, n=1):
        self.counters[name] += n

    def nontrivial(self, *key):
        """This case exercised what the property is about; key identifies it."""
        self.sig = hashlib.sha1(repr(key).encode('utf-8', 'surrogateescape')).digest()[:8]

    def expect(self, cond, msg, **witness):
        self.counters['assertions'] += 1
        if not cond:
            raise Violation(msg, **witness)

    def equal(self, got, want, msg, **witness):
        self.counters['assertions'] += 1
        if got != want:
            raise Violation('%s: got %s, expected %s' % (msg, short(got), short(want)),
                            got=got, want=want, **witness)


def from_repo(tb):
    """Did this exception pass through the code under test?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(os.path.join(REPO, 'warcio') + os.sep):
            return True
        tb = tb.tb_next
    return False


def misread(e, tb):
    """an oracle stumbled over a value: a header that is not there, None or another type in place of a string, ..."""
    if not isinstance(e, (KeyError, IndexError, TypeError, ValueError, AttributeError)):
        return False
    if isinstance(e, AttributeError) and not str(e).startswith("'NoneType' object"):
        return False        # a name that is gone says nothing about the behaviour
    while tb.tb_next is not None:
        tb = tb.tb_next
    return os.path.dirname(tb.tb_frame.f_code.co_filename).endswith(os.path.join('wv', 'checks'))


class Guard(object):
    """CPU-time watchdog of one case (CPU time, so that load does not matter)."""
    fired = False

    @classmethod
    def handler(cls, signum, frame):
        cls.fired = True
        raise NonTermination()

    @classmethod
    def start(cls, seconds):
        cls.fired = False
        signal.signal(signal.SIGPROF, cls.handler)
        # fires again every second, in case a bare except swallows it
        signal.setitimer(signal.ITIMER_PROF, seconds, 1.0)

    @classmethod
    def stop(cls):
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_case(mod, seed, tier, idx, ctx):
    """-> None (held), ('violation', msg, key, witness) or ('inconclusive', msg)"""
    rng = random.Random('%s:%d:%d' % (mod.PROP, seed, idx))
    limit = getattr(mod, 'CPU_LIMIT', 60)
    res = None
    try:
        try:
            Guard.start(limit)
            try:
                mod.case(rng, ctx, idx)
            finally:
                Guard.stop()
        except NonTermination:
            pass
        if Guard.fired:
            res = ('violation', 'no result after %d s of CPU time in one case (does not terminate, '
                                'or takes time out of all proportion)' % limit, None, {})
    except NonTermination:
        res = ('violation', 'no result after %d s of CPU time in one case' % limit, None, {})
    except Violation as e:
        res = ('violation', e.msg, e.key, jsonable(e.witness))
    except Inconclusive as e:
        res = ('inconclusive', str(e))
    except MemoryError as e:
        res = ('inconclusive', 'MemoryError ' + traceback.format_exc()[-800:])
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc()
        if from_repo(sys.exc_info()[2]):
            res = ('violation', 'unexpected %s: %s' % (type(e).__name__, short(str(e))), None,
                   {'traceback': tb[-3000:]})
        elif misread(e, sys.exc_info()[2]):
            res = ('violation', 'what came back is not of the expected form: %s: %s' % (type(e).__name__, short(str(e))), None,
                   {'traceback': tb[-3000:]})
        else:
            res = ('inconclusive', 'harness error: ' + tb[-2000:])
    return res


# signals by which a process ends when it has damaged its memory or called abort()
FATAL = (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGILL, -signal.SIGFPE)


def worker(modname, seed, tier, nworkers, wid, total, deadline, q, stop, tmp, current):
    try:
        os.setpgid(0, 0) if False else None
        tmp = os.path.join(tmp, 'w%d' % wid)
        os.mkdir(tmp)
        tempfile.tempdir = tmp
        os.environ['TMPDIR'] = tmp
        mod = importlib.import_module(modname)
        ctx = Ctx(tier, tmp)
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        sigs = set()
        samples = []
        done = 0
        nviol = ninc = 0
        known = {k for pid, k, _ in load_findings() if pid == mod.PROP}
        t_end = deadline
        for idx in range(wid, total, nworkers):
            if stop.is_set() or time.monotonic() > t_end:
                break
            ctx.sig = None
            ctx.sample = None
            current[wid] = idx
            res = run_case(mod, seed, tier, idx, ctx)
            done += 1
            if ctx.sig is not None:
                sigs.add(ctx.sig)
                if ctx.sample is not None and len(samples) < 2:
                    samples.append(jsonable(ctx.sample))
            if res:
                q.put(('res', idx, res))
                if res[0] == 'violation' and res[2] in known:
                    pass
                elif res[0] == 'violation':
                    nviol += 1
                else:
                    ninc += 1
                if nviol >= 3 or ninc >= 5:
                    stop.set()
        if hasattr(mod, 'teardown'):
            mod.teardown(ctx)
        q.put(('done', done, dict(ctx.counters), sigs, samples))
    except BaseException:
        q.put(('crash', wid, traceback.format_exc()))


def load_findings():
    known = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith('known:'):
                # known: property=<id> key=<mechanism> <what fails>
                parts = line.split(None, 3)
                known.append((parts[1].split('=', 1)[1], parts[2].split('=', 1)[1], parts[3]))
    return known


def main(prop, tier, seed, replay=None, nworkers=None, only=None):
    t0 = time.monotonic()
    modname = 'wv.checks.' + prop.lower()
    mod = importlib.import_module(modname)
    tmp = tempfile.mkdtemp(prefix='wv-%s-' % prop)
    try:
        if replay or only is not None:
            if replay:
                rep = json.load(open(replay))
                seed, tier, only = rep['seed'], rep['tier'], rep['case']
            ctx = Ctx(tier, tmp)
            tempfile.tempdir = tmp
            if hasattr(mod, 'setup'):
                mod.setup(ctx)
            res = run_case(mod, seed, tier, only, ctx)
            print(dict(ctx.counters))
            print(json.dumps(res, indent=1) if res else 'held')
            return 1 if res and res[0] == 'violation' else (2 if res else 0)
        return _main(mod, modname, prop, tier, seed, nworkers, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(mod, modname, prop, tier, seed, nworkers, tmp, t0):
    total = mod.QUICK if tier == 'quick' else mod.THOROUGH
    scale = os.environ.get('WV_SCALE')
    if scale:
        total = max(8, int(total * float(scale)))
    nworkers = nworkers or min(getattr(mod, 'WORKERS', 8), os.cpu_count() or 1)
    nworkers = max(1, min(nworkers, total))
    budget = getattr(mod, 'QUICK_S', 240) if tier == 'quick' else getattr(mod, 'THOROUGH_S', 780)
    deadline = time.monotonic() + budget
    hard = budget + 90
    mp = multiprocessing.get_context('fork')
    q = mp.Queue()
    stop = mp.Event()
    procs = []
    current = mp.Array('q', [-1] * nworkers, lock=False)
    for wid in range(nworkers):
        p = mp.Process(target=worker, args=(modname, seed, tier, nworkers, wid, total, deadline,
                                            q, stop, tmp, current))
        p.start()
        procs.append(p)

    counters = collections.Counter()
    sigs = set()
    samples = []
    evaluations = 0
    violations = []
    inconclusive = []
    pending = nworkers
    while pending:
        try:
            item = q.get(timeout=1)
        except queue.Empty:
            if time.monotonic() - t0 > hard:
                inconclusive.append('wall-clock watchdog: workers did not finish')
                break
            if not any(p.is_alive() for p in procs) and q.empty():
                dead = False
                for wid, p in enumerate(procs):
                    if p.exitcode in FATAL:
                        dead = True
                        violations.append((current[wid], ('violation', 'the interpreter was ended by %s' %
                                                          signal.Signals(-p.exitcode).name, None, {})))
                if not dead:
                    inconclusive.append('a worker died without reporting')
                break
            continue
        if item[0] == 'done':
            pending -= 1
            evaluations += item[1]
            counters.update(item[2])
            sigs |= item[3]
            samples += item[4]
        elif item[0] == 'crash':
            pending -= 1
            inconclusive.append('worker %d: %s' % (item[1], item[2]))
        else:
            _, idx, res = item
            if res[0] == 'violation':
                violations.append((idx, res))
            else:
                inconclusive.append('case %d: %s' % (idx, res[1]))
    for p in procs:
        if p.is_alive() and pending:
            p.kill()
        p.join(20)

    known = [(k, what) for pid, k, what in load_findings() if pid == prop]
    known_keys = {k for k, _ in known}
    for k, what in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    unlisted = [(i, r) for i, r in violations if not (r[2] and r[2] in known_keys)]

    if not unlisted and not inconclusive:
        for name, minimum in getattr(mod, 'NEED', {}).items():
            if counters[name] < minimum:
                inconclusive.append('monitor event %r observed %d times, need %d'
                                    % (name, counters[name], minimum))
        if not sigs:
            inconclusive.append('no non-trivial case was observed')

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples[:4] or ['(none)'],
            'observed': dict(sorted(counters.items())),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(unlisted),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp_ev = os.path.join(EVIDENCE, '.%s.json.tmp' % prop)
    with open(tmp_ev, 'w') as fh:
        json.dump(evidence, fh, indent=1)
        fh.write('\n')
    os.replace(tmp_ev, os.path.join(EVIDENCE, prop + '.json'))

    if unlisted:
        outdir = os.path.join(OUT, prop)
        os.makedirs(outdir, exist_ok=True)
        unlisted.sort(key=lambda v: v[0])
        for n, (idx, res) in enumerate(unlisted[:3]):
            path = os.path.join(outdir, 'replay-%d.json' % n)
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'tier': tier, 'seed': seed, 'case': idx,
                           'message': res[1], 'witness': res[3],
                           'how': 'python3 run.py %s --replay %s' % (prop, path)}, fh, indent=1)
                fh.write('\n')
            print('case %d: %s' % (idx, short(res[1], 1500)))
            if isinstance(res[3], dict) and res[3].get('traceback'):
                print(res[3]['traceback'])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if inconclusive:
        print('INCONCLUSIVE property=%s' % prop)
        for line in inconclusive[:5]:
            print('  ' + line)
        return 2
    print('HELD property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs'
          % (prop, tier, seed, evaluations, len(sigs), time.monotonic() - t0))
    print('  observed: ' + ', '.join('%s=%d' % kv for kv in sorted(counters.items())))
    return 0
