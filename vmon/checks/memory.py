"""Memory needed by iterations and by writers, and what they keep of frames."""
import gc, os, tracemalloc, weakref
import numpy as np

from .. import core, gen
from ..core import Property

R37 = Property('R37',
    'Iterations over scenes, dual scenes, linking files and analysed scenes, '
    'analyses, and tables written from generators. Observed are the objects '
    'given and the arrays they are views of (by weak references, after each few '
    'steps), the files open, and the largest memory allocated on recordings of '
    'some length and three times that. Non-trivial: 40 or more steps, or 10 or '
    'more MB of difference between the lengths.',
    ['frames have about the same number of particles, and trajectories the '
     'same length, in the short and the long recording'])


class Kept(object):
    """Counts which of the objects that went through are still in memory."""
    def __init__(self, case, what, most=20):
        self.case, self.what, self.most = case, what, most
        self.refs, self.worst = [], 0

    def saw(self, *objs):
        mine = []
        for obj in objs:
            mine.append(weakref.ref(obj))
            for arr in obj.as_dict().values():
                while isinstance(arr, np.ndarray):
                    mine.append(weakref.ref(arr))
                    arr = arr.base
        self.refs.append(mine)

    def look(self):
        gc.collect()
        alive = sum(any(r() is not None for r in mine) for mine in self.refs)
        self.worst = max(self.worst, alive)
        self.case.check(alive <= self.most, '%s: of the frames (or trajectories) '
            'that went by, too many are still in memory' % self.what,
            alive=alive, of=len(self.refs))
        files = self.case.open_files()
        self.case.check(len(files) <= 6, '%s: too many files are open' % self.what,
            files=files[:10])

    def through(self, it, parts=lambda x: [x]):
        """Consumes the iterator."""
        n = 0
        every = self.case.integer(5, 15)
        for x in it:
            self.saw(*parts(x))
            del x
            n += 1
            if n % every == 0:
                self.look()
        self.done(n)

    def passing(self, it):
        """A generator that gives and watches items."""
        n = 0
        for x in it:
            self.saw(x)
            yield x
            del x
            n += 1
            if n % 10 == 0:
                self.look()
        self.done(n)

    def done(self, n):
        self.look()
        self.case.count('steps', n)
        self.case.note(what=self.what, steps=n, most_alive=self.worst)
        if n >= 40:
            self.case.nontrivial(self.what, n, self.worst,
                self.case.seed, self.case.index)


def dtype_of(width):
    return np.dtype([('trajid', int), ('pos', float, 3), ('velocity', float, 3),
        ('time', int)] + ([('wide', float, width)] if width else []))


def rows_of(t, particles, width, first=0, life=10):
    """The particles of a frame; each goes on for some frames."""
    rng = np.random.default_rng(t)
    arr = np.zeros(particles, dtype_of(width))
    # Not all end in the same frame:
    num = np.arange(particles)
    arr['trajid'] = num + particles*((t - first + num % life) // life)
    arr['pos'] = rng.random((particles, 3)) + num[:,None]*.1
    arr['velocity'] = 1 + t % 7
    arr['time'] = t
    return arr


def table_file(path, frames, particles, width, first=0, life=10):
    """A scene file, written by PyTables, frame by frame."""
    import tables
    f = tables.open_file(path, 'w')
    tab = f.create_table('/', 'particles', dtype_of(width))
    ids = set()
    for t in range(first, first + frames):
        arr = rows_of(t, particles, width, first, life)
        ids.update(arr['trajid'].tolist())
        tab.append(arr)
    tab.cols.trajid.create_index()
    tab.cols.time.create_index()
    b = f.create_table('/', 'bounds', np.dtype(
        [('trajid', int), ('first', int), ('last', int)]))
    arr = np.zeros(len(ids), b.dtype)
    arr['trajid'] = sorted(ids)
    arr['first'], arr['last'] = first, first + frames - 1
    b.append(arr)
    b.cols.trajid.create_index()
    f.flush()
    f.close()
    return frames*particles*dtype_of(width).itemsize


def snapshots(frames, particles, width, first=0, life=10):
    from flowtracks.particle import Particle
    from flowtracks.trajectory import ParticleSnapshot
    for t in range(first, first + frames):
        arr = rows_of(t, particles, width, first, life)
        kwds = dict((k, arr[k].copy()) for k in arr.dtype.fields if k != 'time')
        yield ParticleSnapshot(time=t, **kwds)


def tracks(number, length, width):
    from flowtracks.trajectory import Trajectory
    for trid in range(number):
        rng = np.random.default_rng(trid)
        kwds = {'wide': rng.random((length, width))} if width else {}
        yield Trajectory(rng.random((length, 3)), rng.random((length, 3)),
            np.arange(length) + trid, trid, **kwds)


def dual_of(tracers, particles, frames, first=0):
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    return DualScene(tracers, particles, 500., Particle(5e-4, 1450.),
        (first, first + frames))


class Mean(object):
    """An analyser that looks and forgets."""
    def __init__(self, kept=None):
        self.kept = kept
        self.calls = 0

    def descr(self):
        return [('mean', float, 1), ('rel', float, 3)]

    def analyse(self, frame, next_frame):
        self.calls += 1
        if self.kept is not None:
            self.kept.saw(frame.particles, frame.tracers, next_frame.particles,
                next_frame.tracers)
            if self.calls % 10 == 0:
                self.kept.look()
        return [frame.particles.pos().mean(axis=1),
            next_frame.particles.pos() - frame.particles.pos()]


def linked_frames(case, frames, particles, first, life, xuap, single):
    """
    Files of chains, each going on for `life` frames. The same rows go on, so
    the links are simple.
    """
    num = np.arange(particles)
    base = 1 if xuap else 0
    texts = []
    for t in range(frames):
        age = (t + num) % life
        prev = np.where((age == 0) | (t == 0), -1, num) + base
        nxt = np.where((age == life - 1) | (t == frames - 1), -2, num) + base
        rng = np.random.default_rng(t)
        cols = [prev, nxt] + list((rng.random((3, particles))*9).round(3))
        if xuap:
            cols += [np.ones(particles)]*9
        lines = ['%d %d ' % (r[0], r[1]) + ' '.join('%.3f' % x for x in r[2:])
            for r in zip(*cols)]
        head = [] if xuap or single else ['%d' % particles]
        texts.append('\n'.join(head + lines) + '\n')
    if single:
        path = case.path('all_frames.txt')
        with open(path, 'w') as f:
            f.write('\n'.join(texts))
        return path
    d = case.tmp()
    name = 'xuap.%d' if xuap else 'ptv_is.%d'
    for t, text in enumerate(texts):
        with open(os.path.join(d, name % (first + t)), 'w') as f:
            f.write(text)
    return os.path.join(d, name)


@R37.scenario(quick=60, thorough=1200)
def kept(case):
    from flowtracks import io
    from flowtracks.scene import Scene
    from flowtracks.analysis import analysis
    from flowtracks.an_scene import AnalysedScene
    what = case.pick(['frames', 'segments', 'trajectories', 'dual frames',
        'dual segments', 'analysis', 'analysed', 'save frames', 'save tracks',
        'links', 'links', 'interpolant'])
    frames = case.integer(45, 120)
    particles = case.integer(3, 12)
    width = case.pick([0, 0, 2])
    first = case.pick([0, 1, 10001])
    life = case.integer(2, 9)
    path = case.path('a.h5')
    kept = Kept(case, what)
    if what in ('frames', 'segments', 'trajectories'):
        table_file(path, frames, particles, width, first, life)
        scene = Scene(path, case.pick([None, (first, first + frames)]))
        if what == 'segments':
            kept.through(scene.iter_segments(), list)
        elif what == 'trajectories' and case.chance(.4):
            kept.through(io.trajectories(path, None, None, 500.,
                iter_allowed=True))
        else:
            kept.through(getattr(scene, 'iter_' + what)())
    elif what.startswith('dual') or what in ('analysis', 'analysed'):
        other = case.path('b.h5')
        table_file(path, frames, particles, width, first, life)
        table_file(other, frames, particles + 2, width, first, life)
        dual = dual_of(other, path, frames, first)
        rng = case.pick([-1, (first + 1, first + frames)])
        if what == 'dual frames':
            kept.through(dual.iter_frames(rng),
                lambda x: [x.particles, x.tracers])
        elif what == 'dual segments':
            kept.through(dual.iter_segments(rng), lambda x: [x[0].particles,
                x[0].tracers, x[1].particles, x[1].tracers])
        elif what == 'analysis':
            probe = Mean(kept)
            analysis(dual, case.path('out.h5'), 'none.cfg', [probe], rng)
            kept.done(probe.calls)
        else:
            out = case.path('out.h5')
            conf = case.path('c.cfg')
            with open(conf, 'w') as f:
                f.write('[Particle]\ndensity = 1450\ndiameter = 5e-4\n[Scene]\n'
                    'particles file = %s\ntracers file = %s\nfirst frame = %d\n'
                    'last frame = %d\nframe rate = 500\n' % (path, other, first,
                    first + frames - 1))
            analysis(dual, out, conf, [Mean()])
            scene = AnalysedScene(out)
            kept.through(scene.iter_trajectories())
    elif what == 'save frames':
        io.save_frames_hdf(path, kept.passing(snapshots(frames, particles, width,
            first, life)))
    elif what == 'save tracks':
        io.save_particles_table(path, kept.passing(tracks(frames, life + 2, width)))
    elif what == 'interpolant':
        from flowtracks.interpolation import interpolant
        interp = interpolant(case.pick(['inv', 'rbf']), 4, param=1.)
        way = case.pick(['set', 'call', 'fields'])
        for t in range(frames):
            arr = rows_of(t, particles + 4, 0)
            args = [arr['pos'][:-3].copy(), arr['pos'][-3:].copy(),
                arr['velocity'][:-3].copy()]
            kept.refs.append([weakref.ref(a) for a in args])
            if way == 'call':
                interp(*args)
            else:
                if way == 'set' or t == 0:
                    interp.set_scene(*args)
                else:
                    interp.set_field_positions(args[0])
                    interp.set_data_on_current_field(args[2])
                    interp.set_interp_points(args[1])
                interp.interpolate()
            del args
        kept.done(frames)
    else:
        xuap, single = case.chance(.4), case.chance(.3)
        tmpl = linked_frames(case, frames, particles, first, life, xuap, single)
        # All that end in a frame are made together.
        kept.most += particles
        least = case.pick([None, 1, 2])
        args = (None, None) if single or case.chance(.5) else (first,
            first + frames - 1)
        if not xuap and case.chance(.4):
            it = io.trajectories(tmpl, args[0], args[1], 500., fmt='ptvis',
                traj_min_len=least, iter_allowed=True)
        else:
            it = io.iter_trajectories_ptvis(tmpl, *args, xuap=xuap,
                traj_min_len=least)
        kept.through(it)


def most_memory(run):
    """The largest amount of memory held while run() worked."""
    gc.collect()
    tracemalloc.start()
    try:
        before = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        run()
        return tracemalloc.get_traced_memory()[1] - before
    finally:
        tracemalloc.stop()


def exhaust(it):
    for x in it:
        del x


def growth(case, what, make, least=10e6, share=.45):
    """
    make(times) - prepares a recording of `times` times the basic length, and
        returns the operation and the number of bytes of the recording.
    """
    make(.2)[0]() # What is loaded and cached at first use
    found = []
    for times in (1, 4):
        run, size = make(times)
        found.append((most_memory(run), size))
    (small, size), (large, big) = found
    case.note(what=what, memory=[small, large], recorded=[size, big])
    case.check(large - small < share*(big - size), '%s: needs more memory for '
        'a longer recording' % what, memory=[small, large], recorded=[size, big])
    case.count('MB of recordings', (size + big) // 1000000)
    if big - size >= least:
        case.nontrivial(what, found)


@R37.scenario(quick=28, thorough=280)
def peaks(case):
    from flowtracks import io
    from flowtracks.scene import Scene
    from flowtracks.analysis import analysis
    from flowtracks.an_scene import AnalysedScene
    whats = ['iter_frames', 'iter_segments', 'iter_trajectories', 'dual frames',
        'dual segments', 'analysis', 'save frames', 'save tracks', 'one frame',
        'one trajectory', 'tracks of links', 'range', 'one analysed',
        'analysed']
    what = whats[case.index % len(whats)]
    width, particles = case.pick([(20, case.integer(350, 450)),
        (200, case.integer(80, 100))])
    frames = case.integer(80, 100)
    if what in ('iter_trajectories', 'analysed'): # Their number counts.
        width, particles = 1000, case.integer(10, 14)
    first = case.pick([0, 1, 10001])
    life = case.integer(8, 12)
    files = []

    def make(times):
        n = int(frames*times)
        size = n*particles*dtype_of(width).itemsize
        path = case.path('a.h5')
        while files:
            os.remove(files.pop())
        if what in ('save frames', 'save tracks'):
            files.append(path)
            if what == 'save frames':
                return lambda: io.save_frames_hdf(path,
                    snapshots(n, particles, width, first, life)), size
            return lambda: io.save_particles_table(path,
                tracks(n*particles//life, life, width)), size
        table_file(path, n, particles, width, first, life)
        files.append(path)
        if what == 'range':
            scene = Scene(path, (first, first + int(.2*frames)))
            return lambda: exhaust(scene.iter_frames()), size
        if what.startswith('iter'):
            scene = Scene(path, case.pick([None, (first, first + n)]))
            return lambda: exhaust(getattr(scene, what)()), size
        if what.startswith('one'):
            scene = Scene(path)
            if what == 'one frame':
                return lambda: scene.frame_by_time(first + n//2), size
            return lambda: scene.trajectory_by_id(particles//2), size
        dual = dual_of(path, path, n, first)
        if 'analysed' in what:
            out, conf = case.path('out.h5'), case.path('c.cfg')
            with open(conf, 'w') as f:
                f.write('[Particle]\ndensity = 1450\ndiameter = 5e-4\n[Scene]\n'
                    'particles file = %s\ntracers file = %s\nfirst frame = %d\n'
                    'last frame = %d\nframe rate = 500\n' % (path, path, first,
                    first + n - 1))
            analysis(dual, out, conf, [Mean()])
            scene = AnalysedScene(out)
            if what == 'analysed':
                return lambda: exhaust(scene.iter_trajectories()), size
            return lambda: scene.trajectory_by_id(particles//2), size
        if what == 'analysis':
            out = case.path('out.h5')
            return lambda: analysis(dual, out, 'none.cfg', [Mean()]), size
        if what == 'dual frames':
            return lambda: exhaust(dual.iter_frames()), size
        return lambda: exhaust(dual.iter_segments()), size

    def make_links(times):
        n = int(frames*times)
        tmpl = linked_frames(case, n, 60, first, life, xuap, single)
        return lambda: exhaust(io.iter_trajectories_ptvis(tmpl, xuap=xuap,
            traj_min_len=least)), n*60*8*8

    if what == 'tracks of links':
        xuap, single = case.chance(.4), case.chance(.3)
        least = case.pick([None, 1])
        growth(case, what, make_links, .5e6)
    else:
        growth(case, what, make)
