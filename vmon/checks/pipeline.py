"""The whole way from recordings to analysed scenes, and repeatability."""
import contextlib, gc, os, subprocess, sys
import numpy as np

from .. import core, gen, match, monitors
from ..core import Property
from . import interp, io_read, scenes

R34 = Property('R34',
    'Random recordings (inertial particles as xuap, tracers as ptv_is files) '
    'taken all the way: read, stored, opened as a dual scene, analysed (by the '
    'library and by the script), read jointly; and the recording that comes with '
    'the repository. Final values are derived by brute force from the text of '
    'the recordings. Non-trivial: four or more particles were interpolated from '
    'two or more tracers.', interp.PRE)
R35 = Property('R35',
    'Operations of all modules, each done several times in one process on equal '
    'inputs, with different contents of fresh memory, orders of directory '
    'entries, and other operations in between; the results must be the same to '
    'the last bit. Non-trivial: the result has two or more different numbers.',
    ['positions are distinct'])


def write_xuap(case, ch, tmpl='xuap.%d'):
    return gen.write_frames(case, lambda f: ch.xuap_text(f, case), list(ch.rows),
        tmpl)


def model_of(want, first_id=0):
    """Expected trajectories (Chains.expected) by time and position."""
    rows = {}
    for key, (t, pos, vel, acc) in want.items():
        for i in range(len(t)):
            rows[int(t[i]), pos[i].tobytes()] = (key, i)
    return rows


def config(case, pfile, tfile, lo, hi, frate):
    conf = case.path('scene.cfg')
    with open(conf, 'w') as f:
        f.write('[Particle]\ndensity = 1450\ndiameter = 500e-6\n[Scene]\n'
            'particles file = %s\ntracers file = %s\nfirst frame = %d\n'
            'last frame = %d\nframe rate = %r\n' % (pfile, tfile, lo, hi, frate))
    return conf


def run_script(case, *args):
    script = os.path.join(core.REPO, 'scripts', 'analyse_fhdf.py')
    res = subprocess.run([sys.executable, '-W', 'ignore', script] + list(args),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120,
        cwd=case.tmp())
    case.check(res.returncode == 0, 'the script failed',
        output=res.stdout.decode(errors='replace')[-1500:])
    case.count('script runs')


def recordings(case, frames=None):
    """Two runs with the same frames."""
    first = case.pick([1, 8, 10001])
    frames = frames or case.integer(4, 8)
    parts = gen.Chains(case, frames, first, rate=2., survive=.9,
        distinct=True, size=.1) # These are in m, the others in mm.
    tracers = gen.Chains(case, frames, first, rate=6., survive=.9,
        distinct=True)
    return parts, tracers


def make_scene(case, parts, tracers, frate):
    """Through the library to HDF files and a configuration."""
    from flowtracks import io
    files = []
    for ch, name, xuap in ((parts, 'p.h5', True), (tracers, 't.h5', False)):
        tmpl = write_xuap(case, ch) if xuap else gen.write_frames(case,
            ch.ptvis_text, list(ch.rows), 'ptv_is.%d')
        trajs = io.trajectories(tmpl, ch.first, ch.last, frate)
        path = case.path(name)
        io.save_particles_table(path, trajs)
        files.append(path)
    return files


def segments_at(want, t):
    """Of expected trajectories, those in t and t + 1: {key: row}."""
    out = {}
    for key, (tt, pos, vel, acc) in want.items():
        i = np.nonzero(tt == t)[0]
        if len(i) and i[0] + 1 < len(tt):
            out[key] = i[0]
    return out


def expected_rows(want_p, want_t, lo, hi, k, par, ref=interp.ref_inv):
    """(frame, position, velocity, fluid velocity or None), by brute force."""
    rows = []
    for t in range(lo, hi):
        ps, ts = segments_at(want_p, t), segments_at(want_t, t)
        sc = interp.Scene.__new__(interp.Scene)
        sc.tracers = np.array([want_t[key][1][i] for key, i in ts.items()])
        sc.tracers = sc.tracers.reshape(-1, 3)
        sc.data = np.array([want_t[key][2][i] for key, i in ts.items()])
        sc.data = sc.data.reshape(-1, 3)
        sc.comp, sc.size = None, 1.
        for key, i in ps.items():
            sc.points = want_p[key][1][i][None]
            if len(ts) == 0:
                fluid = np.zeros(3)
            elif interp.unclear(sc, k, None):
                fluid = None
            else:
                fluid = ref(sc, interp.neighbours(sc, k), par)[0]
            rows.append((t, want_p[key][1][i], want_p[key][2][i], fluid,
                len(ts)))
    return rows


def rbf_or_none(sc, nb, eps):
    res, cond = interp.ref_rbf(sc, nb, eps)
    return res if cond < 1e6 else [None]


def check_analysis(case, path, rows, what):
    """By time and position, since ids are the library's to choose."""
    from flowtracks.an_scene import AnalysedScene
    sc = AnalysedScene(path)
    time, pos, vel, fluid, rel, ids = sc.collect(['time', 'pos', 'velocity',
        'fluid_vel', 'rel_vel', 'trajid'])
    case.check(len(time) == len(rows), what + ': number of rows', got=len(time),
        want=len(rows))
    where = dict((match.pos_key(t, p), i) for i, (t, p) in
        enumerate(zip(time, pos)))
    good = 0
    for t, p, v, f, nt in rows:
        i = where.get(match.pos_key(t, p))
        case.check(i is not None, what + ': a particle is missing', frame=t,
            pos=p)
        case.close(vel[i], v, what + ': velocity', 1e-9, 1e-9)
        case.close(fluid[i] + rel[i], v, what + ': fluid and relative velocity',
            1e-9, 1e-9)
        if f is not None:
            case.close(fluid[i], f, what + ': fluid velocity', 1e-6, 1e-9)
            good += nt > 1
        case.count('particles compared')
    # Trajectories are consistent with the rows.
    n = 0
    for tr in sc.iter_trajectories():
        n += len(tr)
        case.check(len(tr) < 2 or (np.diff(tr.time()) == 1).all(), what +
            ': times of a trajectory')
    case.check(n == len(rows), what + ': points of trajectories', got=n,
        want=len(rows))
    return good


@R34.scenario(quick=40, thorough=800)
def library(case):
    from flowtracks.scene import read_dual_scene
    from flowtracks.analysis import analysis, FluidVelocitiesAnalyser
    from flowtracks.interpolation import interpolant
    frate = case.pick([1., 25., 500.])
    parts, tracers = recordings(case)
    want_p = parts.expected(frate=frate, xuap=True)
    want_t = tracers.expected(frate=frate)
    if not want_p or not want_t:
        return
    pfile, tfile = make_scene(case, parts, tracers, frate)
    lo, hi = parts.first, parts.last
    conf = config(case, pfile, tfile, lo, hi, frate)
    out = case.path('an.h5')
    k, par = case.pick([1, 4, 6]), case.pick([1, 2.5])
    dual = read_dual_scene(conf)
    # The scenes have what the recordings have.
    for which, want in ((dual.get_particles(), want_p),
            (dual.get_tracers(), want_t)):
        rows = model_of(want)
        got = [(int(f.time()), p) for f in which.iter_frames() for p in f.pos()]
        case.check(len(got) == len(rows), 'points in the scene', got=len(got),
            want=len(rows))
        keys = set(match.pos_key(t, np.frombuffer(p)) for t, p in rows)
        case.check(all(match.pos_key(t, p) in keys for t, p in got),
            'positions in the scene')
    analysis(dual, out, conf, [FluidVelocitiesAnalyser(interpolant('inv', k,
        param=par))])
    rows = expected_rows(want_p, want_t, lo, hi, k, par)
    case.note(frames=[lo, hi], particles=len(want_p), tracers=len(want_t), k=k,
        power=par, rows=len(rows))
    if check_analysis(case, out, rows, 'analysis') > 3:
        case.nontrivial(lo, k, par, [w[1] for w in want_p.values()])


@R34.scenario(quick=20, thorough=160)
def script(case):
    frate = 500.
    parts, tracers = recordings(case)
    want_p = parts.expected(frate=frate, xuap=True)
    want_t = tracers.expected(frate=frate)
    if not want_p or not want_t:
        return
    pfile, tfile = make_scene(case, parts, tracers, frate)
    lo, hi = parts.first, parts.last
    conf = config(case, pfile, tfile, lo, hi, frate)
    out = case.path('an.h5')
    k, method = [(None, 'inv'), (None, 'rbf'), (3, 'inv'), (None, 'corrfun'),
        (1, 'inv'), (None, 'inv'), (3, 'rbf'), (None, 'rbf'), (3, 'corrfun'),
        (1, 'corrfun')][case.index % 10]
    args = [] if k is None else ['--neighbs', str(k)]
    if method != 'inv':
        if method == 'rbf':
            par, ref = 500., lambda sc, nb, eps: rbf_or_none(sc, nb, eps)
            given = '500'
        else:
            sm = interp.Scene(case)
            sm.size = .05
            given, corrs, bins = interp.corr_file(case, sm, 3)
            np.savez(given, corrs=np.abs(corrs), bins=bins)
            par, ref = None, lambda sc, nb, _: interp.ref_corr(sc, nb,
                np.abs(corrs), bins)[0]
        run_script(case, conf, out, '--method', method, '-p', given, *args)
        rows = expected_rows(want_p, want_t, lo, hi, k or 4, par, ref)
        case.note(arguments=args, method=method, rows=len(rows))
        if check_analysis(case, out, rows, 'script, ' + method) > 3:
            case.nontrivial(lo, k, method, [w[1] for w in want_p.values()])
        return
    par = case.pick([None, 2, 1.5, 0, 0., .5])
    if par is not None:
        args += [case.pick(['--param', '-p']), str(par)]
    if case.chance(.5):
        args += ['--method', 'inv']
    run_script(case, conf, out, *args)
    rows = expected_rows(want_p, want_t, lo, hi, k or 4,
        1 if par is None else par)
    case.note(arguments=args, rows=len(rows))
    if check_analysis(case, out, rows, 'script') > 3:
        case.nontrivial(lo, k, par, [w[1] for w in want_p.values()])


@R34.scenario(quick=8, thorough=24, floor=2)
def real_recording(case):
    """A window of the recording in the repository."""
    from flowtracks import io
    from flowtracks.scene import Scene, read_dual_scene
    from flowtracks.analysis import analysis, FluidVelocitiesAnalyser
    from flowtracks.interpolation import interpolant
    data = os.path.join(core.REPO, 'data')
    n = 12
    first = 10001 + (case.index*23 + case.integer(0, 10)) % (200 - n)
    last = first + n - 1
    tmpl = os.path.join(data, 'tracers', 'ptv_is.%d')
    trajs = io.trajectories(tmpl, first, last, 500.)
    tfile = case.path('tracers.h5')
    io.save_particles_table(tfile, trajs)
    parts = io.trajectories(os.path.join(data, 'particles', 'xuap.%d'), 10001,
        10200, 500.)
    scene = Scene(os.path.join(data, 'particles.h5'))
    stored = dict((match.pos_key(t, p), v) for tr in scene.iter_trajectories()
        for t, p, v in zip(tr.time(), tr.pos(), tr.velocity()))
    case.check(sum(map(len, parts)) == len(stored), 'points of the particles',
        text=sum(map(len, parts)), hdf=len(stored))
    lens = sorted(len(t) for t in parts)
    case.check(lens == sorted(len(t) for t in scene.iter_trajectories()),
        'lengths of particle trajectories in the two formats')
    for tr in parts:
        for t, p, v in zip(tr.time(), tr.pos(), tr.velocity()):
            k = match.pos_key(t, p)
            case.check(k in stored, 'a particle is not in the HDF file', time=t,
                pos=p)
            case.close(v, stored[k], 'velocity', 1e-6, 1e-9)
    # Text of the tracers: each particle of each trajectory is in it.
    texts = {}
    for f in range(first, last + 1):
        with open(tmpl % f) as fobj:
            fobj.readline()
            texts[f] = set((float(l.split()[2])/1000., float(l.split()[3])/1000.,
                float(l.split()[4])/1000.) for l in fobj if l.strip())
    for tr in trajs:
        for t, p in zip(tr.time(), tr.pos()):
            case.check(tuple(p) in texts[int(t)], 'a tracer is not in the text')
            case.count('tracer points compared')
        case.close(tr.velocity()[:-1], np.diff(tr.pos(), axis=0)*500.,
            'velocity of a tracer', 1e-9, 1e-9)
    conf = config(case, os.path.join(data, 'particles.h5'), tfile, first, last,
        500.)
    out = case.path('an.h5')
    analysis(read_dual_scene(conf), out, conf, [FluidVelocitiesAnalyser(
        interpolant('inv', 4, param=1))])
    want_p = dict((t.trajid(), (t.time(), t.pos(), t.velocity(), None))
        for t in scene.iter_trajectories())
    want_t = dict((t.trajid(), (t.time(), t.pos(), t.velocity(), None))
        for t in trajs)
    rows = expected_rows(want_p, want_t, first, last, 4, 1)
    case.note(frames=[first, last], tracers=len(trajs), rows=len(rows))
    # Trajectories are cut by the range here.
    from flowtracks.an_scene import AnalysedScene
    an = AnalysedScene(out)
    time, pos, fluid, rel, vel = an.collect(['time', 'pos', 'fluid_vel',
        'rel_vel', 'velocity'])
    case.check(len(time) == len(rows), 'rows', got=len(time), want=len(rows))
    where = dict((match.pos_key(t, p), i) for i, (t, p) in
        enumerate(zip(time, pos)))
    for t, p, v, f, nt in rows:
        i = where.get(match.pos_key(t, p))
        case.check(i is not None, 'a particle is missing', frame=t, pos=p)
        if f is not None:
            case.close(fluid[i], f, 'fluid velocity', 1e-6, 1e-9)
        case.close(vel[i], v, 'velocity', 1e-9, 1e-9)
    case.nontrivial(first)


# --------------------------------------------------------------- repeatability

def as_data(obj, sort=True):
    """Results as comparable plain data. Trajectories by id."""
    if obj is None or isinstance(obj, (int, float, str, bool)):
        return obj
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, np.ndarray):
        if obj.dtype.names:
            return dict((n, as_data(obj[n])) for n in obj.dtype.names)
        return obj.copy()
    if isinstance(obj, dict):
        return dict((str(k), as_data(v)) for k, v in obj.items())
    if hasattr(obj, 'as_dict'):
        d = dict((k, as_data(v)) for k, v in obj.as_dict().items())
        d['#'] = as_data(obj.trajid()) if not obj.has_property('trajid') \
            else as_data(obj.time())
        return d
    if hasattr(obj, 'particles'):
        return [as_data(obj.particles), as_data(obj.tracers)]
    if isinstance(obj, (list, tuple)):
        if obj and all(hasattr(o, 'as_dict') and not o.has_property('trajid')
                for o in obj):
            obj = sorted(obj, key=lambda t: int(t.trajid()))
        return [as_data(o) for o in obj]
    return as_data(list(obj))


def numbers(data, found=None):
    found = set() if found is None else found
    if isinstance(data, np.ndarray):
        found.update(data.ravel()[:20].tolist())
    elif isinstance(data, dict):
        for v in data.values():
            numbers(v, found)
    elif isinstance(data, list):
        for v in data:
            numbers(v, found)
    elif isinstance(data, (int, float)):
        found.add(data)
    return found


def op_read(case, formats=('ptvis', 'xuap', 'acc', 'npz', 'hdf', 'single')):
    from flowtracks import io
    fmt = case.pick(formats)
    if fmt == 'acc':
        tmpl, paths = io_read.acc_dir(case)
        return fmt, lambda: io.trajectories(tmpl, min(paths), max(paths), 1.)
    if fmt in ('npz', 'hdf'):
        path = io_read.save_as(case, fmt, gen.traj_models(case, n=6))
        return fmt, lambda: io.trajectories(path, None, None, 1.)
    ch = gen.Chains(case, first=0 if fmt == 'single' else None)
    if fmt == 'single':
        tmpl = case.path('frames.txt')
        with open(tmpl, 'w') as f:
            f.write('\n'.join(ch.ptvis_text(i, False) for i in ch.rows))
        return fmt, lambda: io.trajectories(tmpl, None, None, 5.)
    if fmt == 'xuap':
        tmpl = write_xuap(case, ch)
    else:
        tmpl = gen.write_frames(case, ch.ptvis_text, list(ch.rows), 'ptv_is.%d')
    return fmt, lambda: io.trajectories(tmpl, ch.first, ch.last, 5.)


def op_collect(case):
    from flowtracks import io, trajectory
    models = gen.traj_models(case, n=7, span=4)
    trajs = [gen.real_traj(m) for m in models]
    case.watch(trajs)
    f = case.integer(0, 3)
    if case.chance(.5):
        seg = case.chance(.5)
        return 'collect', lambda: io.collect_particles_generic(trajs, f, seg)
    def snap():
        ix = trajectory.trajectories_in_frame(trajs, f)
        return [ix, trajectory.take_snapshot([trajs[i] for i in ix], f,
            trajs[0].schema())]
    return 'snapshot', snap


def op_interpolate(case):
    from flowtracks import interpolation as ip
    sc, eps = interp.rbf_scene(case)
    method = case.pick(['inv', 'rbf', 'corrfun'])
    par = {'inv': 2, 'rbf': eps, 'corrfun': None}[method]
    if method == 'corrfun':
        par = interp.corr_file(case, sc, 1)[0]
    k = case.pick([2, 4, 9])
    radius = sc.size if case.chance(.3) else None
    kind = case.pick(['scene', 'call', 'jacobian', 'distances', 'same object'])
    args = sc.args()
    case.watch([a for a in args if a is not None])
    one = ip.interpolant(method, k, radius, par)
    def work():
        ipl = one if kind == 'same object' else ip.interpolant(method, k, radius,
            par)
        if kind == 'call':
            return ipl(*args)
        ipl.set_scene(*args)
        if kind == 'jacobian':
            return ipl.eulerian_jacobian(None, 1e-4*sc.size)
        if kind == 'distances':
            return [ipl.current_dists(), ipl.current_active_neighbs(),
                ipl.neighb_dists(args[0], args[1], args[3])]
        return ipl.interpolate()
    def guarded():
        try:
            return work()
        except np.linalg.LinAlgError:
            return 'singular'
    return '%s %s' % (method, kind), guarded


def op_smooth(case):
    from flowtracks.smoothing import savitzky_golay
    m = gen.traj_models(case, n=4, span=25, min_len=3)
    trajs = [gen.real_traj(x) for x in m]
    case.watch(trajs)
    if case.chance(.5):
        return 'savitzky-golay', lambda: savitzky_golay(trajs, 10., 7, 3)
    return 'spline', lambda: [t.smoothed(1e-2, 3) for t in trajs]


def op_scene(case):
    from flowtracks.scene import Scene
    path, models = scenes.write(case)
    kind = case.pick(['frames', 'trajectories', 'segments', 'collect', 'box'])
    rng = scenes.random_range(case, models)
    def work():
        s = Scene(path, rng)
        if kind == 'frames':
            return list(s.iter_frames())
        if kind == 'trajectories':
            return list(s.iter_trajectories())
        if kind == 'segments':
            return [list(x) for x in s.iter_segments()]
        if kind == 'collect':
            return s.collect(['pos', 'trajid', 'time'], {'time': (0, 1e9, False)})
        return [s.frame_range(), s.keys(), s.shapes(), s.trajectory_ids()]
    return 'scene ' + kind, work


def op_analysis(case):
    from flowtracks.analysis import analysis, FluidVelocitiesAnalyser
    from flowtracks.an_scene import AnalysedScene
    from flowtracks.interpolation import interpolant
    from .analysing import small_dual
    dual, conf = small_dual(case)[:2]
    an = FluidVelocitiesAnalyser(interpolant('inv', 3))
    def work():
        out = case.path('an.h5')
        analysis(dual, out, conf, [an])
        return AnalysedScene(out).collect(['time', 'trajid', 'fluid_vel', 'pos'])
    return 'analysis', work


def op_sequence(case):
    from . import seq as seqs
    seq, rng, sets, paths = seqs.make(case, holes=False)
    def func(s, frame, nxt):
        return dict((int(i), p) for i, p in zip(frame.particles.trajid(),
            nxt.particles.pos()))
    if case.chance(.5):
        return 'mapping', lambda: seq.map_trajectories(func)
    return 'sequence', lambda: [list(x) for x in seq]


def op_pairs(case):
    from flowtracks.pairs import particle_pairs
    a, b = (gen.traj_models(case, n=5, span=4) for _ in range(2))
    points = [(m.trajid, i) for m in a for i in range(len(m))]
    ids, ixs = np.array(points).T.copy()
    ta, tb = [gen.real_traj(m) for m in a], [gen.real_traj(m) for m in b]
    case.watch(ta, tb, ids, ixs)
    def work():
        pid, pix = particle_pairs(ta, tb, ids, ixs)
        return [np.where(pix < 0, -1, pid), pix]
    return 'pairs', work


def op_save(case):
    from flowtracks import io
    import tables
    models = gen.traj_models(case, n=5)
    trajs = [gen.real_traj(m) for m in models]
    case.watch(trajs)
    def work():
        path = case.path('s.h5')
        io.save_particles_table(path, trajs)
        f = tables.open_file(path)
        try:
            return [f.root.particles.read(), f.root.bounds.read()]
        finally:
            f.close()
    return 'save', work


def op_fluid(case):
    from flowtracks.analysis import FluidVelocitiesAnalyser
    from flowtracks.interpolation import interpolant
    from .analysing import frame_of
    sm = interp.Scene(case, d=3, comp=False)
    sm.pvel = case.rng.normal(size=sm.points.shape)
    sm.ids = np.arange(len(sm.tracers))
    fr, nx = (frame_of(case, sm, None, t) for t in (0, 1))
    case.watch(fr.tracers, fr.particles, nx.tracers, nx.particles)
    an = FluidVelocitiesAnalyser(interpolant('inv', case.integer(1, 5)))
    return 'fluid velocities', lambda: list(an.analyse(fr, nx))


def op_save_frames(case):
    from flowtracks import io
    from flowtracks.scene import Scene
    path, models = scenes.write(case)
    frames = list(Scene(path).iter_frames())
    case.watch(*frames)
    def work():
        out = case.path('f.h5')
        io.save_frames_hdf(out, frames)
        s = Scene(out)
        return [list(s.iter_trajectories()), s.bounding_box()]
    return 'save frames', work


def op_save_npz(case):
    from flowtracks import io
    trajs = [gen.real_traj(m) for m in gen.traj_models(case, n=5)]
    adds = {'add': dict((t.trajid(), case.rng.normal(size=4)) for t in trajs)}
    free = case.rng.normal(size=(3, 2))
    case.watch(trajs, adds, free)
    def work():
        out = case.tmp()
        io.save_trajectories(out, trajs, adds, free=free)
        got, more = io.load_trajectories(out)
        return [got, more, np.load(os.path.join(out, 'free.npy'))]
    return 'save npz', work


def op_draw(case):
    from flowtracks import graphics
    from .misc import sample, usable
    while True:
        data, log = sample(case), case.chance(.3)
        if usable(data, log):
            break
    case.watch(data)
    if case.chance(.6):
        return 'densities', lambda: graphics.pdf_bins(data, 9, log)
    import matplotlib.pyplot as pl
    def work():
        pl.figure()
        graphics.pdf_graph(data, 9, log)
        return list(pl.gca().lines[0].get_data())
    return 'drawing', work


def op_settings(case):
    """Objects read from configurations."""
    from configparser import ConfigParser
    from . import seq as seqs
    from flowtracks import interpolation as ip, io, sequence
    if case.chance(.5):
        seq, rng, sets, paths = seqs.make(case, holes=False)
        def work():
            cfg = ConfigParser()
            seq.save_config(cfg)
            path = case.path('seq.cfg')
            with open(path, 'w') as f:
                cfg.write(f)
            other = sequence.read_sequence(path)
            # Trajectories are in the order of the directory's listing
            def by_id(frame):
                return [[s.time()] + [s.as_dict()[k][np.argsort(s.trajid())]
                    for k in sorted(s.as_dict())]
                    for s in (frame.particles, frame.tracers)]
            return [other.range(), other.part_fname(),
                [[by_id(f), by_id(n)] for f, n in other]]
        return 'saved sequence', work
    ipl = ip.interpolant(case.pick(['inv', 'rbf']), case.integer(1, 9), param=3.)
    def work():
        cfg = ConfigParser()
        ipl.save_config(cfg)
        path = case.path('i.cfg')
        with open(path, 'w') as f:
            cfg.write(f)
        other = ip.read_interpolant(path)
        return [other.num_neighbs(), other.radius()]
    return 'saved interpolant', work


def op_snapshot(case):
    from flowtracks.trajectory import trajectories_in_frame, take_snapshot
    models = gen.traj_models(case, n=6, span=6, holes=True)
    trajs = [gen.real_traj(m) for m in models]
    t, segs = case.pick(models[0].time()), case.chance(.5)
    case.watch(trajs)
    def work():
        ixs = trajectories_in_frame(trajs, t, segs=segs)
        some = [trajs[i] for i in ixs]
        return [ixs] + [take_snapshot(some, t + i, trajs[0].schema())
            for i in range(segs + 1)]
    return 'snapshot', work


def op_dual(case):
    from .analysing import small_dual
    dual, _, _, _, _, (lo, hi) = small_dual(case)[:6]
    segs = case.chance(.5)
    rng = case.pick([-1, (lo, hi), (lo + 1, hi)])
    def work():
        its = dual.iter_segments(rng) if segs else dual.iter_frames(rng)
        return [[[f.tracers, f.particles] for f in (fr if segs else [fr])]
            for fr in its]
    return 'dual scene', work


def op_vectors(case):
    from flowtracks import graphics
    import matplotlib.pyplot as pl
    vecs = case.rng.normal(size=(case.integer(3, 30), 3))
    times = np.arange(len(vecs))
    names = ['x', 'y', 'z']
    case.watch(vecs, times)
    def work():
        pl.close('all')
        fig = graphics.plot_vectors(vecs, times, 'time', pl.figure())
        return [l.get_data() for ax in fig.axes for l in ax.lines]
    return 'vectors', work


def op_collect_rows(case):
    from flowtracks import io
    models = gen.traj_models(case, n=6, span=6, holes=True)
    trajs = [gen.real_traj(m) for m in models]
    t, segs = int(case.pick(models[0].time())), case.chance(.5)
    case.watch(trajs)
    return 'collecting', lambda: io.collect_particles_generic(trajs, t, segs)


def settings():
    """What the whole process shares, and is none of the library's business."""
    import random, tables
    return {'working directory': os.getcwd(), 'environment': dict(os.environ),
        'handling of errors': np.geterr(), 'printing': np.get_printoptions(),
        'random numbers': core.digest(np.random.get_state()[1:]) + repr(
            random.getstate())[-60:],
        'PyTables': dict((k, repr(v)) for k, v in vars(tables.parameters).items()
            if k.isupper())}


OPS = [op_read, op_read, op_collect, op_interpolate, op_interpolate, op_smooth,
    op_scene, op_analysis, op_sequence, op_pairs, op_save, op_draw, op_settings,
    op_fluid, op_save_frames, op_save_npz, op_snapshot, op_dual, op_vectors,
    op_collect_rows]


@R35.scenario(quick=240, thorough=6000)
def repeatable(case):
    made = [OPS[case.index % len(OPS)](case)]
    made.append(case.pick(OPS)(case))
    runs = case.pick([2, 2, 3])
    before = settings()
    results = [[], []]
    for run in range(runs):
        order = [0, 1] if run == 0 or case.chance(.5) else [1, 0]
        with monitors.poisoned_empty(run % 2, case.counters), \
                monitors.shuffled_listdir(case.rng, case.counters):
            for i in order:
                results[i].append(as_data(made[i][1]()))
                case.count('operations: ' + made[i][0].split()[0])
    names = [op[0] for op in made]
    after = settings()
    case.check(before == after, 'settings of the process were changed', 
        operations=names, **dict((k, [before[k], after[k]]) for k in before
            if before[k] != after[k]))
    for name, res in zip(names, results):
        for r in res[1:]:
            case.check(core.digest(r) == core.digest(res[0]), 'another result of '
                'the same operation (%s)' % name, first=res[0], again=r)
    case.note(operations=names, runs=runs)
    del made
    left = case.open_files()
    if left: # Unless something that was dropped in a cycle keeps them.
        gc.collect()
        left = case.open_files()
    case.check(not left, 'files are open after all that used them is gone',
        files=left, operations=names)
    if len(numbers(results[0][0])) > 1:
        case.nontrivial(names[0], results[0][0])
