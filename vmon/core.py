"""
The runner: cases, verdicts, evidence, replay files.

A *scenario* is a function of one argument, a Case. It makes a random workload
(from the case's seeded generator), drives the real library with it, and feeds
what it observes to an oracle. `case.fail` (or any exception that comes out of
the library, or out of the oracle because of what the library returned) is a
violation; an exception in the workload generator is an error of the harness.
"""
import argparse, collections, contextlib, gc, hashlib, importlib, json, os
import multiprocessing, resource, shutil, signal, sys, tempfile, time
import traceback, zlib

import numpy as np

from . import monitors

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMON_REPO', '/repo')
CPU_CAP = 60        # CPU-seconds for one case; a case needs about 0.1
MEM_CAP = 6 << 30   # bytes of address space per process beyond the start

# How many times the scenarios' numbers of cases are run, so that most quick
# checks take 15 to 30 s on 8 cores.
BOOST = {'R01': 9, 'R02': 9, 'R03': 9, 'R04': 10, 'R05': 12, 'R06': 2, 'R08': 1.5,
    'R09': 10, 'R10': 12, 'R11': 8, 'R12': 15, 'R13': 1.5, 'R14': 4, 'R15': 4,
    'R16': 4, 'R17': 4, 'R18': 4, 'R20': 12, 'R21': 7, 'R22': 10, 'R24': 4,
    'R25': 2, 'R26': 4, 'R27': 5, 'R28': 10, 'R29': 12, 'R30': 2, 'R31': 3,
    'R32': 10, 'R33': 12, 'R36': 5}


class Violation(Exception):
    pass


class Stuck(Exception):
    pass


class KnownFinding(Exception):
    """Raised by a scenario whose observation is a listed finding."""
    def __init__(self, key, text):
        Exception.__init__(self, text)
        self.key = key


def jsonable(obj, limit=12):
    if isinstance(obj, dict):
        return {str(k): jsonable(v, limit) for k, v in list(obj.items())[:40]}
    if isinstance(obj, (list, tuple, set)):
        obj = list(obj)
        out = [jsonable(v, limit) for v in obj[:limit]]
        if len(obj) > limit:
            out.append('... %d in all' % len(obj))
        return out
    if isinstance(obj, np.ndarray):
        if obj.size > limit:
            return {'shape': list(obj.shape), 'dtype': str(obj.dtype),
                    'head': jsonable(obj.ravel()[:limit].tolist())}
        return jsonable(obj.tolist())
    if isinstance(obj, np.generic):
        return jsonable(obj.item())
    if isinstance(obj, (int, str, bool)) or obj is None:
        return obj
    if isinstance(obj, float):
        return obj if np.isfinite(obj) else repr(obj)
    return repr(obj)[:300]


def digest(*things):
    h = hashlib.blake2b(digest_size=12)
    def feed(x):
        if isinstance(x, np.ndarray):
            h.update(str(x.dtype).encode() + repr(x.shape).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                feed(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b'[%d' % len(x))
            for y in x:
                feed(y)
        else:
            h.update(repr(x).encode())
    feed(things)
    return h.hexdigest()


class Case(object):
    """One execution: its generator of random choices and its observations."""
    def __init__(self, prop, scenario, seed, index, root):
        self.prop, self.scenario = prop, scenario
        self.seed, self.index = seed, index
        self.rng = np.random.default_rng([seed & 0xffffffff,
            zlib.crc32(prop.encode()), zlib.crc32(scenario.encode()), index])
        # Some cases have many times as many particles as usual.
        self.big = int(self.rng.integers(8, 40)) if self.rng.random() < .04 else 0
        self.frames = None # Scenarios may ask for a number of frames.
        self.counters = collections.Counter()
        self.sigs = []
        self.sample = {}
        self._root = root
        self._dirs = []
        self._watched = []

    # Random choices
    def integer(self, lo, hi):
        """lo <= result <= hi"""
        return int(self.rng.integers(lo, hi + 1))

    def chance(self, p):
        return bool(self.rng.random() < p)

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    # Scratch space
    def open_files(self):
        """
        Those in this case's scratch space. Of HDF5 files, those which PyTables
        has open: it leaves descriptors behind for files it has closed.
        """
        from tables.file import _open_files
        found = []
        for d in self._dirs:
            for path in monitors.open_files_under(d):
                with open(path, 'rb') as f:
                    hdf = f.read(4) == b'\x89HDF'
                if not hdf:
                    found.append(path)
            found.extend(p for p, handlers in _open_files._name_mapping.items()
                if handlers and os.path.realpath(p).startswith(os.path.realpath(d) + os.sep))
        return found

    def tmp(self):
        # Names may look like those of data files, or have special characters.
        d = tempfile.mkdtemp(dir=self._root, suffix=self.pick(['']*12 + ['.mat',
            '.mat.d', '.h5', '.hdf', '.txt', 'mat', '.npz', ' 2 #1', '; a=b',
            u'\u00e9', '(1)', '+[x]', '.%s' % self.integer(1, 99), '~']))
        self._dirs.append(d)
        return d

    def path(self, name):
        return os.path.join(self.tmp(), name)

    # Observations
    def count(self, what, n=1):
        self.counters[what] += int(n)

    def nontrivial(self, *things):
        """Notes the workload (or observation) as a non-trivial one."""
        self.sigs.append(digest(*things))

    def note(self, **kw):
        self.sample.update(kw)

    # Oracles
    def fail(self, msg, **detail):
        raise Violation(msg + ''.join(
            '\n    %s: %s' % (k, json.dumps(jsonable(v))[:1500])
            for k, v in detail.items()))

    def check(self, cond, msg, **detail):
        self.counters['oracle decisions'] += 1
        if not bool(np.all(cond)):
            self.fail(msg, **detail)

    def equal(self, got, want, msg, **detail):
        """Equal values and shapes (NaN equal NaN, types free)."""
        self.counters['oracle decisions'] += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(msg + ': wrong shape', got_shape=g.shape,
                want_shape=w.shape, got=g, want=w, **detail)
        if g.dtype.kind in 'OUSV' or w.dtype.kind in 'OUSV':
            ok = g == w
        else:
            ok = (g == w) | ((g != g) & (w != w))
        if not np.all(ok):
            bad = np.argwhere(~np.asarray(ok))[:5]
            self.fail(msg + ': wrong value', at=bad, got=g[tuple(bad[0])],
                want=w[tuple(bad[0])], **detail)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-12, **detail):
        """Equal shapes and nearly equal values (NaN equal NaN)."""
        self.counters['oracle decisions'] += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(msg + ': wrong shape', got_shape=g.shape,
                want_shape=w.shape, got=g, want=w, **detail)
        with np.errstate(all='ignore'):
            ok = (np.abs(g - w) <= atol + rtol*np.abs(w)) | (g == w) \
                | ((g != g) & (w != w))
        if not ok.all():
            bad = np.argwhere(~ok)[:5]
            self.fail(msg + ': wrong value', at=bad, got=g[tuple(bad[0])],
                want=w[tuple(bad[0])], **detail)

    def raises(self, exc, func, msg):
        self.counters['oracle decisions'] += 1
        try:
            func()
        except exc:
            return
        self.fail(msg)

    def watch(self, *objs):
        """The objects must have the same contents when the case ends."""
        for obj in objs:
            self._watched.append((obj, monitors.fingerprint(obj)))

    def check_watched(self):
        for obj, before in self._watched:
            self.counters['inputs watched for mutation'] += 1
            after = monitors.fingerprint(obj)
            if after != before:
                self.fail('an input was modified: %s' % (type(obj).__name__))

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)


class Scenario(object):
    def __init__(self, func, quick, thorough, floor, known):
        self.func, self.name = func, func.__name__
        self.counts = {'quick': quick, 'thorough': thorough}
        self.floor = floor
        self.known = known


class Property(object):
    """The scenarios of one property."""
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.assumptions = list(assumptions)
        self.scenarios = []

    def scenario(self, quick=100, thorough=None, floor=None, known=()):
        """
        quick, thorough - number of cases.
        floor - number of distinct non-trivial cases of it needed for a verdict.
        """
        def register(func):
            self.scenarios.append(Scenario(func, quick,
                20*quick if thorough is None else thorough,
                max(1, quick // 10) if floor is None else floor, known))
            return func
        return register

    def by_name(self, name):
        return [s for s in self.scenarios if s.name == name][0]


@contextlib.contextmanager
def cpu_limit(seconds):
    def alarm(sig, frm):
        raise Stuck('no result in %d CPU-seconds' % seconds)
    old = signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds, 1)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def is_harness_error(exc):
    """
    Not of the code under test: raised in the workload generator or the runner,
    with none of the library's code on the stack; or the machine's fault.
    """
    if isinstance(exc, OSError) and exc.errno in (28, 24, 122): # ENOSPC, EMFILE
        return True
    frames = traceback.extract_tb(exc.__traceback__)
    here = os.path.dirname(os.path.abspath(__file__))
    repo = os.path.realpath(REPO) + os.sep
    if any(os.path.realpath(f.filename).startswith(repo) for f in frames):
        return False
    if isinstance(exc, Stuck):
        return True
    ours = [f for f in frames if f.filename.startswith(here + os.sep)]
    return bool(ours) and os.path.basename(ours[-1].filename) in (
        'gen.py', 'monitors.py', '__main__.py')


def run_case(prop, scen, seed, index, root):
    """
    Returns (case, outcome, text), where outcome is 'held', 'violation',
    'known' or 'error'.
    """
    case = Case(prop.pid, scen.name, seed, index, root)
    try:
        with cpu_limit(CPU_CAP), monitors.installed(case), \
                np.errstate(all='ignore'):
            scen.func(case)
            case.check_watched()
        return case, 'held', ''
    except Violation as e:
        return case, 'violation', str(e)
    except KnownFinding as e:
        case.sample['known finding'] = e.key
        return case, 'known', e.key + '\0' + str(e)
    except Stuck as e:
        text = str(e) + '\n' + traceback.format_exc(limit=-6)
        return case, 'error' if is_harness_error(e) else 'violation', text
    except Exception as e:
        text = traceback.format_exc(limit=-8)
        if is_harness_error(e):
            return case, 'error', text
        return case, 'violation', 'exception on valid input\n' + text
    finally:
        plots = sys.modules.get('matplotlib.pyplot')
        if plots is not None:
            plots.close('all')
        case.cleanup()


def run_jobs(prop, seed, jobs, deadline, stop, root):
    """Worker: runs cases until done, the deadline, or a violation anywhere."""
    out = {'counters': collections.Counter(), 'sigs': collections.defaultdict(set),
        'evals': collections.Counter(), 'bad': [], 'known': {}, 'errors': [],
        'samples': {}}
    for name, index in jobs:
        if stop.is_set() or time.time() > deadline:
            break
        scen = prop.by_name(name)
        case, outcome, text = run_case(prop, scen, seed, index, root)
        out['evals'][name] += 1
        out['counters'].update(case.counters)
        out['sigs'][name].update(case.sigs)
        if case.sigs and name not in out['samples']:
            out['samples'][name] = dict(jsonable(case.sample),
                scenario=name, index=index)
        if outcome == 'violation':
            out['bad'].append((name, index, text, jsonable(case.sample)))
            stop.set()
        elif outcome == 'error':
            out['errors'].append((name, index, text))
            stop.set()
        elif outcome == 'known':
            key, txt = text.split('\0', 1)
            out['known'][key] = txt
        gc.collect() if index % 64 == 0 else None
    return out


def limit_memory():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    with open('/proc/self/statm') as f:
        size = int(f.read().split()[0]) * resource.getpagesize()
    cap = size + MEM_CAP
    if hard != resource.RLIM_INFINITY:
        cap = min(cap, hard)
    resource.setrlimit(resource.RLIMIT_AS, (cap, hard))


def worker(conn, prop, seed, jobs, deadline, stop, root):
    # PyTables complains when a cyclic garbage collection ends a file's nodes
    # after the file.
    sys.unraisablehook = lambda args: None
    try:
        limit_memory()
        conn.send(run_jobs(prop, seed, jobs, deadline, stop, root))
    except BaseException:
        conn.send({'crash': traceback.format_exc()})
    finally:
        conn.close()


def load_known(pid):
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % pid):
                rest = line.split('property=%s ' % pid, 1)[1].strip()
                key, text = rest.split(' ', 1)
                assert key.startswith('key=')
                known[key[4:]] = text
    return known


def write_replay(prop, tier, seed, name, index, text, sample):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d-%d.json' % (prop.pid, name, seed, index))
    with open(path, 'w') as f:
        json.dump({'property': prop.pid, 'scenario': name, 'seed': seed,
            'index': index, 'tier': tier, 'what': text, 'workload': sample,
            'replay_with': './run.sh %s --replay %s' % (prop.pid, path)},
            f, indent=1)
    return path


def check_import():
    import flowtracks
    got = os.path.realpath(os.path.dirname(flowtracks.__file__))
    want = os.path.realpath(os.path.join(REPO, 'flowtracks'))
    if got != want:
        sys.exit('flowtracks imported from %s, not %s' % (got, want))


def find_property(pid):
    path = os.path.join(VERIF, 'vmon', 'checks')
    for fname in sorted(os.listdir(path)):
        if fname.endswith('.py') and fname != '__init__.py':
            mod = importlib.import_module('vmon.checks.' + fname[:-3])
            for obj in vars(mod).values():
                if isinstance(obj, Property) and obj.pid == pid:
                    return obj
    sys.exit('no such property: ' + pid)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
        choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
        default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--only', help='only this scenario')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--replay', help='run again the case of a replay file')
    args = ap.parse_args(argv)
    start = time.time()

    root = tempfile.mkdtemp(prefix='vmon-')
    os.environ['MPLCONFIGDIR'] = os.path.join(root, 'mpl')
    try:
        return run(args, root, start)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(args, root, start):
    check_import()
    prop = find_property(args.property)
    pid = prop.pid

    if args.replay:
        rep = json.load(open(args.replay))
        case, outcome, text = run_case(prop, prop.by_name(rep['scenario']),
            rep['seed'], rep['index'], root)
        print(outcome, text)
        if outcome == 'violation':
            print('VIOLATION property=%s replay=%s' % (pid, args.replay))
        return {'held': 0, 'known': 0, 'violation': 1, 'error': 2}[outcome]

    # Job list, scenarios interleaved.
    jobs = []
    for scen in prop.scenarios:
        if args.only and scen.name != args.only:
            continue
        n = scen.counts['quick'] * BOOST.get(pid, 1)
        if args.tier == 'thorough':
            n = max(2*n, scen.counts['thorough'])
        n = max(1, int(n * args.scale))
        jobs.extend(((i + .5) / n, scen.name, i) for i in range(n))
    jobs = [(name, i) for _, name, i in sorted(jobs)]

    budget = 240 if args.tier == 'quick' else 800
    deadline = start + budget
    nproc = args.jobs or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context('fork')
    stop = ctx.Event()
    procs = []
    for w in range(nproc):
        mine = [j for j in jobs if (j[1] + zlib.crc32(j[0].encode())) % nproc == w]
        if not mine:
            continue
        here, there = ctx.Pipe(False)
        p = ctx.Process(target=worker,
            args=(there, prop, args.seed, mine, deadline, stop, root))
        p.start()
        there.close()
        procs.append((p, here))

    tot = {'counters': collections.Counter(), 'evals': collections.Counter(),
        'sigs': collections.defaultdict(set), 'bad': [], 'known': {},
        'errors': [], 'samples': {}}
    for p, conn in procs:
        try:
            if not conn.poll(max(1, deadline - time.time()) + 120):
                raise EOFError('worker timed out')
            res = conn.recv()
        except EOFError as e:
            res = {'crash': 'worker ended without a result %s (exit %s)' % (
                e, p.exitcode)}
        p.join(5)
        if p.is_alive():
            p.kill()
        if 'crash' in res:
            tot['errors'].append(('worker', -1, res['crash']))
            continue
        for k in ('counters', 'evals'):
            tot[k].update(res[k])
        for k, v in res['sigs'].items():
            tot['sigs'][k] |= v
        for k in ('bad', 'errors'):
            tot[k].extend(res[k])
        tot['known'].update(res['known'])
        for k, v in res['samples'].items():
            tot['samples'].setdefault(k, v)

    # Findings are known only if listed.
    listed = load_known(pid)
    for key, text in sorted(tot['known'].items()):
        if key in listed:
            print('KNOWN-FINDING: property=%s %s' % (pid, listed[key]))
        else:
            tot['bad'].append((key, 0, text, {}))

    nontriv = sum(len(s) for s in tot['sigs'].values())
    evidence = {
        'property': pid, 'tier': args.tier, 'seed': args.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(tot['evals'].values()),
            'distinct_nontrivial': nontriv,
            'rule': prop.rule,
            'samples': list(tot['samples'].values())
                or [{'none': 'no case completed'}],
            'per_scenario': {s.name: {'executions': tot['evals'][s.name],
                'distinct_nontrivial': len(tot['sigs'][s.name])}
                for s in prop.scenarios},
            'monitor_observations': dict(sorted(tot['counters'].items())),
            'known_findings_seen': sorted(tot['known']),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.time() - start, 2),
        'violations': len(tot['bad']),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if tot['bad']:
        for name, index, text, sample in tot['bad'][:4]:
            path = write_replay(prop, args.tier, args.seed, name, index, text,
                sample)
            print('%s case %d: %s' % (name, index, text))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1

    if tot['errors']:
        for name, index, text in tot['errors']:
            print('ERROR (harness) %s case %d: %s' % (name, index, text))
        return 2

    short = [s.name for s in prop.scenarios
        if not args.only and len(tot['sigs'][s.name]) < s.floor * min(1, args.scale)]
    if short:
        print('INCONCLUSIVE: too few non-trivial cases observed in', short)
        return 2

    print('%s held on %d executions (%d distinct non-trivial), %d oracle '
        'decisions, %.1f s' % (pid, sum(tot['evals'].values()), nontriv,
        tot['counters']['oracle decisions'], time.time() - start))
    return 0
