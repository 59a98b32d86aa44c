"""Independent work that goes on at the same time."""
import contextlib, gc, os, pickle, sys, threading, traceback
import numpy as np

from .. import core, gen
from ..core import Property
from . import analysing, io_read, pipeline, scenes, seq as seqs

R39 = Property('R39',
    'Work of several kinds, done alone and then together with other work that '
    'shares no object with it (but may share its inputs and files). Iterators are '
    'advanced in random turns. Threads run under a scheduler of the monitor, '
    'which at random lines of the library stops the one that runs and lets '
    'another go on, so that an order of turns is repeated by its seed. Processes '
    'are forked. Non-trivial: an order of turns, with ten or more changes of turn '
    '(iterations: ten or more steps), not seen before.',
    ['no two threads use PyTables, which does not support it',
     'in threads, changes of turn are at the lines of the library'])


def as_data(obj):
    """In the byte order of this machine, which pickling may change it to."""
    def native(x):
        if isinstance(x, np.ndarray):
            return x.astype(x.dtype.newbyteorder('='))
        if isinstance(x, dict):
            return dict((k, native(v)) for k, v in x.items())
        return [native(y) for y in x] if isinstance(x, list) else x
    return native(pipeline.as_data(obj))


@contextlib.contextmanager
def same_listings():
    """Of directories. The order of rows may depend on it."""
    listdir = os.listdir
    os.listdir = lambda *args: sorted(listdir(*args))
    try:
        yield
    finally:
        os.listdir = listdir


# ------------------------------------------------------------------- processes

def in_child(case, work):
    """Forks. Returns the process, and the end of a pipe to read from."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    os.close(r)
    rc = 1
    had = list(case._dirs)
    try:
        try:
            res = work(), None
        except Exception as e:
            res = None, traceback.format_exc(limit=-4)
        with os.fdopen(w, 'wb') as f:
            pickle.dump(res, f)
        case._dirs[:] = [d for d in case._dirs if d not in had]
        case.cleanup()
        rc = 0
    finally:
        os._exit(rc)


def of_child(pid, r):
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (None, 'the process ended')


def by_itself(case, work):
    """The result in a process that has done nothing else of this case."""
    res, error = of_child(*in_child(case, lambda: as_data(work())))
    case.check(error is None, 'exception on valid input', error=error)
    return res


# ------------------------------------------------------------------- iterators

def a_scene(case, shared):
    from flowtracks.scene import Scene
    from flowtracks import io
    if 'scene' not in shared or case.chance(.3):
        shared['scene'] = scenes.write(case)
    path, models = shared['scene']
    rng = scenes.random_range(case, models)
    kind = case.pick(['iter_frames', 'iter_trajectories', 'iter_segments',
        'file'])
    if kind == 'file':
        lo, hi = scenes.effective(models, rng)
        return 'scene file', lambda: iter(io.trajectories(path, lo, hi - 1, 1.,
            fmt='hdf', iter_allowed=True))
    return 'scene ' + kind[5:], lambda: getattr(Scene(path, rng), kind)()


def links(case, shared):
    from flowtracks import io
    if 'links' not in shared or case.chance(.3):
        ch = gen.Chains(case, first=0 if case.chance(.5) else None)
        d = [gen.write_frames(case, ch.ptvis_text, list(ch.rows), 'ptv_is.%d'),
            gen.write_frames(case, lambda f: ch.xuap_text(f, case),
                list(ch.rows), 'xuap.%d')]
        single = case.path('frames.txt')
        with open(single, 'w') as f:
            f.write('\n'.join(ch.ptvis_text(i, False) for i in ch.rows))
        shared['links'] = ch, d + [single]
    ch, paths = shared['links']
    i = case.integer(0, 2)
    first, last = (None, None) if i == 2 else io_read.limits(case, ch)
    rate = case.pick([1., 50.])
    min_len = case.pick([None, 1, 3])
    return 'linking files', lambda: io.iter_trajectories_ptvis(paths[i], first,
        last, rate, i == 1, min_len)


def dual_or_analysed(case, shared):
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    from flowtracks.analysis import analysis, FluidVelocitiesAnalyser
    from flowtracks.interpolation import interpolant
    from flowtracks.an_scene import AnalysedScene
    if 'dual' not in shared:
        dual, conf, pfile, parts, tfile, full = analysing.small_dual(case)[:6]
        out = case.path('an.h5')
        analysis(dual, out, conf,
            [FluidVelocitiesAnalyser(interpolant('inv', 3))])
        shared['dual'] = dual._paths, full, out
    (tfile, pfile), full, out = shared['dual']
    kind = case.pick(['frames', 'segments', 'analysed', 'analysing'])
    if kind == 'analysed':
        return 'analysed scene', lambda: AnalysedScene(out).iter_trajectories()
    rng = case.pick([-1, full, (full[0], full[1] - 1)])
    par = Particle(1e-3, 1000.)
    if kind == 'analysing':
        class Keeper(object):
            """An analysis that is stopped at each frame."""
            def descr(self):
                return [('x', float, 3)]
        def steps():
            an = FluidVelocitiesAnalyser(interpolant('inv', 2))
            for fr, nx in DualScene(tfile, pfile, 5., par, full
                    ).iter_segments(rng):
                yield an.analyse(fr, nx)
        return 'analyser', steps
    return 'dual scene ' + kind, lambda: getattr(DualScene(tfile, pfile, 500.,
        par, full), 'iter_' + kind)(rng)


def a_sequence(case, shared):
    from flowtracks.sequence import Sequence
    if 'sequence' not in shared or case.chance(.3):
        shared['sequence'] = seqs.make(case)
    old, rng, sets, paths = shared['sequence']
    # Others may be over the same files.
    lo, hi = rng
    if case.chance(.3) and hi - lo > 2:
        lo = case.integer(lo, hi - 2)
        hi = case.integer(lo + 1, hi)
    kwds = {'traj_min_len': case.pick([None, 0, 1, 2, 3, 5])}
    only = case.pick([None, None, 1, 3])
    which = case.pick(['set_particle_selector', 'set_tracer_selector'])
    order = case.pick([0, 0, 1])
    rate = case.pick([500., 20.])
    def make():
        seq = Sequence((lo, hi), rate, old.part, paths[order],
            paths[1 - order], **kwds)
        if only is not None:
            getattr(seq, which)(lambda trajs: trajs[:only])
        return seq
    if case.chance(.5) or hi - lo < 2:
        return 'sequence', lambda: iter(make())
    a = case.integer(lo, hi - 1)
    sub = a, case.integer(a + 1, hi)
    if case.chance(.5): # of the same sequence, which are different objects
        if 'one' not in shared or shared['one'][0] is not old:
            shared['one'] = old, make(), sub
        one, sub = shared['one'][1:]
        return 'subrange', lambda: iter(one.iter_subrange(*sub))
    return 'subrange', lambda: iter(make().iter_subrange(*sub))


def whole(case, shared):
    """An operation, done at the first step and again at the second."""
    name, work = case.pick(pipeline.OPS)(case)
    def steps():
        for _ in range(2):
            yield work()
    return name, steps


ITERS = [a_scene, a_scene, links, dual_or_analysed, a_sequence, whole]


@R39.scenario(quick=150, thorough=4000)
@same_listings()
def iterations(case):
    """Taking turns, each gives what it gives alone."""
    shared, made = {}, []
    kind = case.pick(ITERS)
    for i in range(case.integer(2, 4)):
        if not case.chance(.7):
            kind = case.pick(ITERS)
        made.append(kind(case, shared))
    names = [n for n, _ in made]
    alone = [by_itself(case, lambda: [as_data(x) for x in it()])
        for _, it in made]
    its, turns = [it() for _, it in made], []
    out = [[] for _ in made]
    kept = [[] for _ in made] # The objects given, to be read once more later.
    left = list(range(len(made)))
    while left:
        i = case.pick(left)
        for _ in range(case.pick([1, 1, 1, 2, 5])):
            turns.append(i)
            try:
                obj = next(its[i])
            except StopIteration:
                left.remove(i)
                break
            kept[i].append(obj)
            out[i].append(as_data(obj))
    case.note(work=names, steps=len(turns))
    case.count('steps in turns', len(turns))
    for i, name in enumerate(names):
        case.check(len(out[i]) == len(alone[i]), '%s: another number of results '
            'than alone' % name, alone=len(alone[i]), together=len(out[i]),
            work=names)
        for a, b, obj in zip(alone[i], out[i], kept[i]):
            case.check(core.digest(a) == core.digest(b), '%s: not the same as '
                'alone' % name, alone=a, together=b, work=names)
            case.check(core.digest(a) == core.digest(as_data(obj)), '%s: what '
                'was given changed later' % name, work=names)
    if len(turns) >= 10:
        case.nontrivial(names, turns)


# --------------------------------------------------------------------- threads

class Turns(object):
    """
    Runs functions in threads, of which one has its turn at any time. It may lose
    it at any line of the library, as the random numbers say.
    """
    def __init__(self, rng, often, counters):
        import flowtracks
        self.rng, self.often, self.counters = rng, often, counters
        self.under = os.path.dirname(flowtracks.__file__) + os.sep
        self.order = []

    def run(self, works):
        n = len(works)
        self.results = [None]*n
        self.events = [threading.Event() for _ in works]
        self.alive = list(range(n))
        self.over = threading.Event()
        threads = [threading.Thread(target=self.thread, args=(i, w), daemon=True)
            for i, w in enumerate(works)]
        for t in threads:
            t.start()
        self.give(self.pick())
        if not self.over.wait(300):
            raise RuntimeError('threads do not end')
        for t in threads:
            t.join(60)
        return self.results

    def pick(self):
        return self.alive[int(self.rng.integers(len(self.alive)))]

    def give(self, i):
        self.order.append(i)
        self.events[i].set()

    def thread(self, i, work):
        self.events[i].wait()
        self.events[i].clear()
        def line(frame, event, arg):
            if event == 'line':
                self.counters['lines of the library run in threads'] += 1
                if self.rng.random() < self.often:
                    other = self.pick()
                    if other != i:
                        self.counters['changes of turn'] += 1
                        self.give(other)
                        self.events[i].wait()
                        self.events[i].clear()
            return line
        def call(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.under):
                return line
        sys.settrace(call)
        try:
            self.results[i] = as_data(work()), None
        except Exception as e:
            self.results[i] = None, '%s: %s\n%s' % (type(e).__name__, e,
                traceback.format_exc(limit=-3))
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            if self.alive:
                self.give(self.pick())
            else:
                self.over.set()


def th_read(case):
    return pipeline.op_read(case, ['ptvis', 'xuap', 'acc', 'npz', 'single'])


def th_interpolate(case):
    while True:
        name, work = pipeline.op_interpolate(case)
        if 'same' not in name:
            return name, work


def th_sequence(case):
    """Over linking files, the others would need PyTables."""
    from flowtracks.sequence import Sequence
    from flowtracks.particle import Particle
    ch = gen.Chains(case, distinct=True)
    tmpl = gen.write_frames(case, ch.ptvis_text, list(ch.rows), 'ptv_is.%d')
    rng = ch.first, ch.last
    def func(s, frame, nxt):
        return dict((int(i), p) for i, p in zip(frame.particles.trajid(),
            nxt.particles.pos()))
    mapping = case.chance(.4)
    def work():
        seq = Sequence(rng, 500., Particle(5e-4, 1450.), tmpl, tmpl)
        return seq.map_trajectories(func) if mapping else [list(x) for x in seq]
    return 'sequence', work


def th_analyser(case):
    """An analyser for each thread."""
    from flowtracks.analysis import FluidVelocitiesAnalyser
    from flowtracks.interpolation import interpolant
    from .analysing import frame_of
    from . import interp
    sm = interp.Scene(case, d=3, comp=False)
    sm.pvel = case.rng.normal(size=sm.points.shape)
    sm.ids = np.arange(len(sm.tracers))
    fr, nx = (frame_of(case, sm, None, t) for t in (0, 1))
    k = case.integer(1, 5)
    case.watch(fr.tracers, fr.particles)
    return 'fluid velocities', lambda: list(FluidVelocitiesAnalyser(
        interpolant('inv', k)).analyse(fr, nx))


def th_densities(case):
    from flowtracks import graphics
    from .misc import sample, usable
    while True:
        data, log = sample(case), case.chance(.3)
        if usable(data, log):
            break
    case.watch(data)
    return 'densities', lambda: graphics.pdf_bins(data, 9, log)


def th_config(case):
    """Several steps on an interpolant of its own."""
    from configparser import ConfigParser
    from flowtracks import interpolation as ip
    from . import interp
    scs = [interp.rbf_scene(case)[0] for _ in range(2)]
    k = case.integer(2, 6)
    def work():
        cfg = ConfigParser()
        ip.interpolant('inv', k, param=2.).save_config(cfg)
        path = case.path('i.cfg')
        with open(path, 'w') as f:
            cfg.write(f)
        ipl = ip.read_interpolant(path)
        res = [ipl.num_neighbs()]
        for sc in scs:
            ipl.set_scene(*sc.args())
            res.append(ipl.interpolate())
            res.append(ipl.current_active_neighbs())
        return res
    return 'interpolant', work


def th_alike(case, shared):
    """
    Interpolations, smoothing and so on, of the same sizes but not of the same
    numbers, or the other way round.
    """
    from flowtracks import interpolation as ip, smoothing, trajectory, io, pairs
    from . import interp
    r = case.rng
    if not shared:
        shared.update(n=case.integer(3, 12), m=case.integer(1, 5),
            k=case.integer(1, 6), method=case.pick(['inv', 'rbf', 'rbf']),
            kind=case.pick(['interpolate', 'interpolate', 'jacobian', 'smooth',
                'smooth', 'splines', 'snapshot', 'collect', 'pairs']),
            tracers=r.uniform(0., .02, (12, 3)), points=r.uniform(0., .02, (5, 3)),
            path=r.normal(size=(30, 3)))
    n, m, k, kind = [shared[x] for x in 'n m k kind'.split()]
    tracers, points = shared['tracers'][:n], shared['points'][:m]
    path = shared['path']
    other = case.integer(0, 3)
    if other & 1:
        tracers, points = [x + r.uniform(0, .01, x.shape) for x in
            (tracers, points)]
        path = path + r.normal(size=path.shape)
    if kind in ('interpolate', 'jacobian'):
        if other & 2 or not other:
            data = r.normal(size=(n, 3))
        else:
            data = np.sin(tracers*100)
        if case.chance(.3):
            k = case.integer(1, 6)
        par = case.pick([1., 2.]) if shared['method'] == 'inv' else \
            case.pick([1e5, 3e4])
        def work():
            ipl = ip.interpolant(shared['method'], k, param=par)
            if kind == 'interpolate':
                return [ipl(tracers, points, data) for _ in range(3)]
            ipl.set_scene(tracers, points, data)
            return ipl.eulerian_jacobian(None, 1e-5)
        return shared['method'] + ' ' + kind, work
    ids = r.permutation(40)[:4] if other & 2 else np.arange(4)
    trajs = [trajectory.Trajectory(path + i, path*10. + i, np.arange(len(path)) +
        other, int(i)) for i in ids]
    window, order, bound = case.pick([(5, 2, .1), (7, 3, .2), (9, 3, .3),
        (5, 3, .1)])
    if kind == 'smooth':
        return kind, lambda: smoothing.savitzky_golay(trajs, 10.*(other + 1),
            window, order)
    if kind == 'splines':
        return kind, lambda: [t.smoothed(bound, 3) for t in trajs]
    frame = case.integer(5, 20)
    if kind == 'collect':
        return kind, lambda: [io.collect_particles_generic(trajs, frame + i,
            bool(other & 1)) for i in range(3)]
    if kind == 'pairs':
        which = r.permutation(4)[:3]
        ixs = r.integers(0, 30, 3)
        def work():
            return pairs.particle_pairs(trajs, trajs[::-1], ids[which], ixs)
        return kind, work
    def work():
        ix = trajectory.trajectories_in_frame(trajs, frame, segs=True)
        return [trajectory.take_snapshot([trajs[i] for i in ix], frame + i,
            trajs[0].schema()) for i in range(2)]
    return kind, work


THREADS = [th_read, th_read, th_interpolate, th_interpolate, th_sequence,
    th_analyser, th_densities, pipeline.op_smooth, pipeline.op_collect,
    pipeline.op_snapshot, pipeline.op_collect_rows, pipeline.op_pairs,
    pipeline.op_save_npz]


def together(case, made, twins):
    """Pairs of a name and a function."""
    works = list(made)
    if twins: # The same inputs and files.
        works.append(case.pick(made))
    return works


@R39.scenario(quick=180, thorough=4500)
@same_listings()
def threads(case):
    if case.index % 2:
        kind = THREADS[case.index//2 % len(THREADS)]
        made = [kind(case) for _ in range(case.pick([1, 2, 2, 3]))]
        if len(made) < 2 or case.chance(.4):
            made.append(case.pick(THREADS)(case))
    else:
        shared = {}
        made = [th_alike(case, shared) for _ in range(case.pick([2, 2, 3]))]
    works = together(case, made, case.chance(.3))
    names = [n for n, _ in works]
    alone = [by_itself(case, w) for _, w in works]
    # The most lines of the library there are turns on: some for the quick ones.
    turns = Turns(np.random.default_rng([case.seed & 0xffffffff, case.index, 3]),
        case.pick([.5, .1, .02]), case.counters)
    got = turns.run([w for _, w in works])
    case.note(work=names, changes_of_turn=len(turns.order))
    for name, want, (res, error) in zip(names, alone, got):
        case.check(error is None, '%s fails in a thread' % name, error=error,
            work=names)
        case.check(core.digest(want) == core.digest(res), '%s: not the same in '
            'a thread as alone' % name, alone=want, together=res, work=names)
        case.count('results of threads compared')
    if len(turns.order) >= 10:
        case.nontrivial(names, turns.order)


PROCESSES = THREADS + [pipeline.op_scene, pipeline.op_read, pipeline.op_read,
    pipeline.op_save, pipeline.op_scene]


@R39.scenario(quick=40, thorough=700)
@same_listings()
def processes(case):
    """Some of them read the same files."""
    kind = PROCESSES[case.index % len(PROCESSES)]
    made = [kind(case) for _ in range(case.pick([1, 2]))]
    if len(made) < 2:
        made.append(case.pick(PROCESSES)(case))
    works = together(case, made, case.chance(.6))
    names = [n for n, _ in works]
    alone = [core.digest(by_itself(case, w)) for _, w in works]
    gc.collect()
    times = 3
    children = [in_child(case, lambda: [core.digest(as_data(w()))
        for _ in range(times)]) for _, w in works]
    # This process goes on working, too.
    here = [core.digest(as_data(works[0][1]())) for _ in range(times)]
    got = [of_child(*c) for c in children]
    case.note(work=names)
    case.check(here == [alone[0]]*times, '%s: not the same as alone, while '
        'other processes work' % names[0], work=names)
    for name, want, (res, error) in zip(names, alone, got):
        case.check(error is None, '%s fails in a process of its own' % name,
            error=error, work=names)
        case.check(res == [want]*times, '%s: not the same in a process of its '
            'own' % name, work=names)
        case.count('results of processes compared', times)
    case.nontrivial(names, alone)
