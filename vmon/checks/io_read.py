"""Reading trajectories: ptv_is, xuap, single-file, trajAcc, mat; dispatch."""
import contextlib, os, types
import numpy as np

from .. import gen, match
from ..core import Property

R01 = Property('R01',
    'Each case writes a random tracking run (particles appearing, surviving and '
    'vanishing over consecutive frames, rows shuffled in every frame, frame '
    'numbers crossing powers of ten, stray files beside them) as ptv_is files, '
    'reads it back (iterator or list, with or without a frame range and minimal '
    'length, directory listed in random order) and compares with the chains '
    'that were simulated. Non-trivial: at least two trajectories, or one of at '
    'least 3 frames, had to come out.',
    ['frame numbers have no gaps', 'no links of a frame disagree with the next',
     'one-frame paths are only judged for minimal lengths of 2 and more'])
R02 = Property('R02',
    'The random tracking runs of R01 at random frame rates; velocity and '
    'acceleration at every point of every trajectory are compared with forward '
    'differences of the simulated positions. Non-trivial: some trajectory has '
    'at least 3 points and moves.', R01.assumptions)
R03 = Property('R03',
    'Random tracking runs written as xuap files (1-based float link columns, '
    'velocities in columns 8-10, with or without extra columns) and read back; '
    'the reader\'s result on the same run written as ptv_is is compared too. '
    'Non-trivial: at least two trajectories came out.', R01.assumptions)
R04 = Property('R04',
    'The same random tracking run written as separate ptv_is files and as one '
    'concatenated file, with empty and one-particle frames; both results and '
    'the simulated chains are compared. Non-trivial: at least two trajectories '
    'came out.', R01.assumptions)
R05 = Property('R05',
    'Random trajAcc directories and mat files are written, read, and compared '
    'point for point with what was written. Non-trivial: at least two paths.',
    ['paths of trajAcc files start at age 0'])
R06 = Property('R06',
    'The general entry point is run on every format, with ranges and minimal '
    'lengths around the data\'s limits, with and without an explicit format, as '
    'a list and as an iterator; every result is compared with the model. '
    'Non-trivial: a range or length limit actually excluded something.',
    ['mat files have no range, trajAcc ranges select files'])


def small_run(case, **kwds):
    return gen.Chains(case, **kwds)


def least(min_len):
    """The least length, with its default."""
    return 2 if min_len is None else min_len


def limits(case, ch):
    """A frame range, around the run's."""
    kind = case.integer(0, 4)
    if case.chance(.04): # Nothing
        return case.pick([(ch.last + 1, None), (ch.last + 2, ch.last + 9),
            (None, ch.first - 1), (ch.last + 1, ch.last + 1)])
    if kind == 0 or ch.last - ch.first < 2:
        return None, None
    a = case.integer(ch.first - 1, ch.last - 1)
    b = case.integer(a + 1, ch.last + 1)
    if case.chance(.15): # to the first frame, or a single one
        b = case.pick([ch.first, max(a, 0)])
        a = min(a, b)
        kind = case.pick([2, 3])
    if kind == 1:
        return max(a, 0), None
    if kind == 2:
        return None, b
    return max(a, 0), b


def compare(case, got, want, what, kinematics=False):
    match.unique_trajids(case, got)
    left = {}
    for c, (t, pos, vel, acc) in want.items():
        left.setdefault(match.pos_key(t, pos), []).append((pos, vel, acc))
    case.check(len(got) == len(want), what + ': number of trajectories',
        got=len(got), want=len(want))
    for tr in got:
        case.count('trajectories compared')
        case.count('trajectory points compared', len(tr))
        t = np.asarray(tr.time())
        case.check(t.shape == (len(tr),) and np.all(t == np.rint(t)),
            what + ': times', time=t)
        case.check(tr.pos().shape == (len(tr), 3), what + ': shape of positions',
            shape=tr.pos().shape)
        key = match.pos_key(t, tr.pos())
        case.check(bool(left.get(key)), what + ': a trajectory that is not in '
            'the data (or comes out twice)', time=t, pos=tr.pos())
        # Of several at the same places, the one with this velocity.
        which = len(left[key]) - 1
        for i, (_, vel, _) in enumerate(left[key]):
            if kinematics and tr.has_property('velocity') and \
                    np.shape(tr.velocity()) == vel.shape and \
                    np.allclose(tr.velocity(), vel, 1e-7, 1e-9):
                which = i
        pos, vel, acc = left[key].pop(which)
        case.check(tr.has_property('velocity') and tr.has_property('accel'),
            what + ': no velocity or acceleration')
        if kinematics:
            scale = max(1., np.abs(acc).max(), np.abs(vel).max())
            case.close(tr.velocity(), vel, what + ': velocity', 1e-7,
                1e-9*scale, time=t)
            case.close(tr.accel(), acc, what + ': acceleration', 1e-7,
                1e-9*scale, time=t)
    case.check(not any(left.values()), what + ': trajectories are missing')


def read(case, tmpl, first, last, frate, min_len, xuap=False):
    from flowtracks import io
    kwds = {} if min_len is None else {'traj_min_len': min_len}
    with gen.spelled(case, tmpl) as tmpl:
        if case.chance(.5):
            case.count('read as a list')
            return io.trajectories_ptvis(tmpl, first, last, frate, xuap, **kwds)
        case.count('read as an iterator')
        return list(io.iter_trajectories_ptvis(tmpl, first, last, frate, xuap,
            **kwds))


def note(case, ch, want, **kw):
    case.note(frames=[ch.first, ch.last], particles=ch.born,
        rows_per_frame=[len(r) for r in ch.rows.values()],
        trajectories=len(want), lengths=[len(w[0]) for w in want.values()], **kw)


def nontrivial(case, ch, want, *more):
    lens = [len(w[0]) for w in want.values()]
    if len(lens) > 1 or max(lens + [0]) > 2:
        case.nontrivial(ch.rows, list(ch.pos.values()), *more)


@R01.scenario(quick=500, thorough=12000)
def tracking_run(case):
    """Whole runs and ranges of them."""
    ch = small_run(case, empty=case.pick([0, 0, .1]))
    first, last = limits(case, ch)
    min_len = case.pick([None, None, 0, 1, 2, 3, 5])
    tmpl = gen.write_frames(case, ch.ptvis_text, list(ch.rows))
    want = ch.expected(first, last, 1., least(min_len))
    note(case, ch, want, range=[first, last], min_len=min_len)
    got = read(case, tmpl, first, last, 1., min_len)
    compare(case, got, want, 'ptv_is [%s, %s]' % (first, last))
    nontrivial(case, ch, want, first, last, min_len)


@R01.scenario(quick=24, thorough=400)
def long_run(case):
    """Many frames, long and short paths: old frames are given up on the way."""
    if case.chance(.5):
        ch = small_run(case, frames=case.integer(80, 250), survive=.99,
            rate=case.pick([.1, .3]), empty=case.pick([0, 0, .01]))
    else:
        ch = small_run(case, frames=case.integer(30, 70),
            rate=case.pick([.7, 2., 5.]), survive=case.pick([.6, .9, .97]),
            empty=case.pick([0, .05]))
    min_len = case.pick([None, 1, 2, 4, 10])
    tmpl = gen.write_frames(case, lambda f: ch.ptvis_text(f), list(ch.rows))
    want = ch.expected(None, None, 1., least(min_len))
    note(case, ch, want)
    compare(case, read(case, tmpl, None, None, 1., min_len), want, 'long ptv_is')
    nontrivial(case, ch, want)


@R01.scenario(quick=1, thorough=12)
def crowds(case):
    """Tens of thousands of particles in a frame."""
    n = 33000 if case.index == 0 else case.pick([1000, 5000, 20000, 40000])
    case.big = 0
    ch = small_run(case, frames=2 if n > 5000 else 3, rate=n/2, survive=.15)
    tmpl = gen.write_frames(case, lambda f: ch.ptvis_text(f), list(ch.rows))
    want = ch.expected(None, None, 1., least(None))
    note(case, ch, want)
    compare(case, read(case, tmpl, None, None, 1., None), want, 'crowded ptv_is')
    nontrivial(case, ch, want)


@R01.scenario(quick=60, thorough=1500)
def elsewhere(case):
    """Relative paths, the current directory, and directories with odd names."""
    from flowtracks import io
    ch = small_run(case)
    tmpl = gen.write_frames(case, lambda f: ch.ptvis_text(f), list(ch.rows))
    d, base = os.path.split(tmpl)
    want = ch.expected()
    note(case, ch, want, template=base)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        compare(case, io.trajectories_ptvis(base), want, 'current directory')
        os.mkdir('sub+dir (1)')
        for f in ch.rows:
            os.rename(base % f, os.path.join('sub+dir (1)', base % f))
        compare(case, io.trajectories_ptvis(
            os.path.join('sub+dir (1)', base)), want, 'relative directory')
    finally:
        os.chdir(cwd)
    nontrivial(case, ch, want)


@R01.scenario(quick=60, thorough=1000)
def streaming(case):
    """
    The iterator may be left at any point, and another reading of the same data
    is not affected, nor by interleaving two of them.
    """
    from flowtracks import io
    ch = small_run(case, frames=case.integer(6, 12))
    tmpl = gen.write_frames(case, lambda f: ch.ptvis_text(f), list(ch.rows))
    want = ch.expected()
    its = [io.iter_trajectories_ptvis(tmpl) for _ in range(2)]
    out = [[], []]
    for _ in range(case.integer(0, len(want))):
        for o, it in zip(out, its):
            o.append(next(it))
    left = its.pop(case.integer(0, 1))
    del left
    full = io.trajectories_ptvis(tmpl)
    compare(case, full, want, 'while iterating')
    keys = [match.pos_key(t.time(), t.pos()) for t in full]
    for o in out:
        got = [match.pos_key(t.time(), t.pos()) for t in o]
        case.check(len(set(got) - set(keys)) == 0, 'partial iteration gave '
            'something else than the full list')
    note(case, ch, want)
    nontrivial(case, ch, want)


@R02.scenario(quick=400, thorough=10000)
def kinematics(case):
    ch = small_run(case, survive=case.pick([.7, .9]), empty=case.pick([0, 0, .1]))
    frate = case.pick([1., 25., 500., 1./3, 1000])
    first, last = limits(case, ch)
    tmpl = gen.write_frames(case, lambda f: ch.ptvis_text(f), list(ch.rows))
    want = ch.expected(first, last, frate)
    note(case, ch, want, frate=frate)
    compare(case, read(case, tmpl, first, last, frate, None), want,
        'frame rate %g' % frate, kinematics=True)
    if any(len(w[0]) > 2 and np.abs(w[3]).max() > 0 for w in want.values()):
        case.nontrivial(ch.rows, list(ch.pos.values()), frate, first, last)


@R02.scenario(quick=12, thorough=200)
def long_kinematics(case):
    ch = small_run(case, frames=case.integer(25, 60), rate=1.5,
        survive=case.pick([.8, .95]))
    tmpl = gen.write_frames(case, lambda f: ch.ptvis_text(f), list(ch.rows))
    want = ch.expected(None, None, 50.)
    note(case, ch, want)
    compare(case, read(case, tmpl, None, None, 50., None), want, 'long run',
        kinematics=True)
    nontrivial(case, ch, want)


@R02.scenario(quick=60, thorough=1200)
def general_entry(case):
    """The frame rate also gets through the general entry point."""
    from flowtracks import io
    ch = small_run(case)
    frate = case.pick([25., 500., .5])
    tmpl = gen.write_frames(case, lambda f: ch.ptvis_text(f), list(ch.rows),
        'ptv_is.%d')
    want = ch.expected(None, None, frate)
    got = io.trajectories(tmpl, None, None, frate, iter_allowed=case.chance(.5))
    compare(case, list(got), want, 'trajectories()', kinematics=True)
    note(case, ch, want, frate=frate)
    nontrivial(case, ch, want)


@R03.scenario(quick=300, thorough=8000)
def xuap(case):
    ch = small_run(case, survive=case.pick([.7, .9]))
    frate = case.pick([1., 500., 25.])
    first, last = limits(case, ch)
    min_len = case.pick([None, None, 0, 1, 2, 4])
    extra = case.chance(.6)
    tmpl = gen.write_frames(case, lambda f: ch.xuap_text(f, case, extra),
        list(ch.rows), case.pick(['xuap.%d', 'xuap.%d.txt']))
    want = ch.expected(first, last, frate, least(min_len), xuap=True)
    note(case, ch, want, extra_columns=extra, range=[first, last])
    compare(case, read(case, tmpl, first, last, frate, min_len, xuap=True), want,
        'xuap', kinematics=True)
    nontrivial(case, ch, want, first, last)


@R03.scenario(quick=80, thorough=2000)
def xuap_and_ptvis(case):
    """The two encodings of the same run give the same paths, in their units."""
    from flowtracks import io
    ch = small_run(case)
    xu = gen.write_frames(case, lambda f: ch.xuap_text(f, case), list(ch.rows),
        'xuap.%d')
    pt = gen.write_frames(case, lambda f: ch.ptvis_text(f), list(ch.rows),
        'ptv_is.%d')
    a = io.trajectories(xu, None, None, 1.)
    b = io.trajectories(pt, None, None, 1.)
    ka = sorted(match.pos_key(t.time(), t.pos()) for t in a)
    kb = sorted(match.pos_key(t.time(), t.pos()*1000.) for t in b)
    case.check(ka == kb or ch.digits > 6, 'xuap and ptv_is give different paths',
        xuap=len(ka), ptvis=len(kb))
    compare(case, a, ch.expected(xuap=True), 'xuap')
    compare(case, b, ch.expected(), 'ptv_is')
    note(case, ch, ch.expected())
    nontrivial(case, ch, ch.expected())


@R04.scenario(quick=300, thorough=8000)
def single_file(case):
    from flowtracks import io
    ch = small_run(case, first=0, rate=case.pick([.4, 1., 3.]),
        empty=case.pick([0, .15, .3]))
    frate = case.pick([1., 25.])
    min_len = case.pick([None, 0, 1, 2, 3])
    path = case.path(case.pick(['data.txt', 'run.ptv_is', 'all']))
    sep = case.pick(['\n', '\n', '  \n'])
    with open(path, 'w') as f:
        f.write(sep.join(ch.ptvis_text(fr, header=False) for fr in ch.rows)
            + case.pick(['', sep]))
    gen.formerly(case, [path], lambda: gen.read_frames(path))
    want = ch.expected(None, None, frate, least(min_len))
    got = read(case, path, None, None, frate, min_len)
    compare(case, got, want, 'single file', kinematics=True)
    note(case, ch, want, separator=sep)
    nontrivial(case, ch, want, min_len)


@R04.scenario(quick=80, thorough=2000)
def single_and_many(case):
    """The single file and the directory give equal trajectories."""
    from flowtracks import io
    ch = small_run(case, first=0, rate=1., empty=case.pick([0, .2]))
    path = case.path('data.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(ch.ptvis_text(fr, header=False) for fr in ch.rows))
    tmpl = gen.write_frames(case, lambda f: ch.ptvis_text(f), list(ch.rows),
        'ptv_is.%d')
    a = io.trajectories(path, None, None, 10.)
    b = io.trajectories(tmpl, None, None, 10.)
    def key(t):
        return match.pos_key(t.time(), t.pos()), \
            np.rint(t.velocity()*1e6).tobytes(), np.rint(t.accel()*1e5).tobytes()
    case.check(sorted(map(key, a)) == sorted(map(key, b)),
        'single file and directory give different trajectories', single=len(a),
        directory=len(b))
    want = ch.expected()
    note(case, ch, want)
    nontrivial(case, ch, want)


# ------------------------------------------------------------ trajAcc and mat

def acc_dir(case, first=None, frames=None):
    """
    Writes a trajAcc directory. Returns the template and, by file number, the
    list of paths starting in it, each an array of 10 columns (9 and the age).
    """
    from flowtracks import io
    if first is None:
        first = case.pick([0, 7, 98, 10001])
    frames = frames or case.integer(1, 6)
    tmpl = os.path.join(case.tmp(), case.pick(['trajAcc.%d', 'acc_%d.dat']))
    paths = {}
    for f in range(first, first + frames):
        paths[f] = []
        text = []
        for _ in range(case.integer(0, 4)):
            ln = case.integer(1, 7)
            tab = np.round(case.rng.uniform(-.1, .1, (ln, 34)), 6)
            tab[:, 33] = np.arange(ln)
            paths[f].append(tab[:, [0, 1, 2, 3, 4, 5, 6, 7, 8, 33]])
            text.extend(' '.join('%.6f' % x for x in row) for row in tab)
        with open(tmpl % f, 'w') as out:
            if text or case.chance(.5):
                out.write('\n'.join(text) + '\n')
    gen.formerly(case, [tmpl % f for f in paths],
        lambda: io.trajectories_acc(tmpl))
    if case.chance(.5):
        with open(tmpl % first + '.old', 'w') as out:
            out.write('junk\n')
    return tmpl, paths


def acc_want(paths, first, last, min_len=1):
    want = []
    for f, tabs in paths.items():
        if (first is not None and f < first) or (last is not None and f > last):
            continue
        want.extend((f + tab[:, -1], tab[:, :3], tab[:, 3:6], tab[:, 6:9])
            for tab in tabs if len(tab) >= min_len)
    return dict(enumerate(want))


@R05.scenario(quick=300, thorough=6000)
def acc(case):
    from flowtracks import io
    tmpl, paths = acc_dir(case)
    lo, hi = min(paths), max(paths)
    first = case.pick([None, None, lo, case.integer(lo, hi)])
    last = case.pick([None, None, hi, case.integer(max(lo, first or 0), hi)])
    want = acc_want(paths, first, last)
    case.note(files=[lo, hi], range=[first, last], paths=len(want))
    with gen.spelled(case, tmpl) as name:
        got = io.trajectories_acc(name, first, last)
    compare(case, got, want, 'trajAcc', kinematics=True)
    if len(want) > 1:
        case.nontrivial(list(want.values()), first, last)


@contextlib.contextmanager
def matlab_numbers():
    """
    Whole numbers written as Matlab does: in the smallest type that holds all of 
    an array, which is noted to be of doubles.
    """
    from scipy.io.matlab import _mio5
    orig = _mio5.VarWriter5.write_element
    def write_element(self, arr, mdtype=None):
        if mdtype is None and arr.dtype.kind == 'f' and arr.size \
                and (arr == np.round(arr)).all():
            for small in ('u1', 'i2', 'u2', 'i4'):
                info = np.iinfo(small)
                if info.min <= arr.min() and arr.max() <= info.max:
                    arr = arr.astype(small)
                    break
        return orig(self, arr, mdtype)
    
    _mio5.VarWriter5.write_element = write_element
    try:
        yield
    finally:
        _mio5.VarWriter5.write_element = orig


def write_mat(case, path, models):
    from flowtracks import io
    from scipy.io import savemat
    names = ['xf', 'yf', 'zf', 'uf', 'vf', 'wf', 'axf', 'ayf', 'azf']
    arr = np.zeros((len(models), 1), dtype=[(n, object)
        for n in names + ['t', 'trajid']])
    for i, tr in enumerate(models):
        cols = np.hstack((tr.props['pos'], tr.props['velocity'],
            tr.props['accel']))*1000.
        for j, n in enumerate(names):
            arr[n][i, 0] = cols[:, j:j+1]
        arr['t'][i, 0] = tr.props['time'].astype(float)[:, None]
        arr['trajid'][i, 0] = np.full((len(tr), 1), float(tr.trajid))
    out = {'traj': arr}
    if case.chance(.4):
        out['directory'] = 'd:/some/where'
    if case.chance(.5):
        out = dict(reversed(list(out.items())))
    with (matlab_numbers() if case.chance(.5) else contextlib.nullcontext()):
        savemat(path, out)
    
    def alter(path):
        for i in range(len(arr)):
            arr['yf'][i, 0] = arr['yf'][i, 0] + 1
        savemat(path, out)
    gen.formerly(case, [path], lambda: io.trajectories_mat(path), alter)


@R05.scenario(quick=120, thorough=2500)
def mat(case):
    from flowtracks import io
    models = gen.traj_models(case, types=(gen.types(case)[0], float),
        extra={'accel': 'vec'}, first=case.pick([0, 50, 250, 32760]), holes=True)
    path = case.path('trajects.mat')
    write_mat(case, path, models)
    with gen.spelled(case, path) as name:
        got = io.trajectories_mat(name)
    case.note(trajectories=[(m.trajid, len(m)) for m in models])
    match.same_traj_set(case, got, models, 'mat', rtol=1e-9)
    
    # What was read is stored, and is still the same.
    if got and case.chance(.5):
        table = case.path('stored.h5')
        io.save_particles_table(table, got)
        match.same_traj_set(case, io.trajectories_table(table), models,
            'mat, stored in a table', rtol=1e-9)
    if len(models) > 1:
        case.nontrivial([m.props for m in models])


# ------------------------------------------------------------------- dispatch

def in_range(models, first, last, min_len):
    out = []
    for m in models:
        t = m.time()
        keep = np.ones(len(t), dtype=bool)
        if first is not None:
            keep &= t >= first
        if last is not None:
            keep &= t <= last
        if keep.sum() >= max(1, min_len):
            out.append(m.rows(keep))
    return out


def run_trajectories(case, path, first, last, min_len, fmt, frate=1.):
    """List and iterator, they must agree. Returns the list."""
    from flowtracks import io
    kwds = {}
    if min_len is not None:
        kwds['traj_min_len'] = min_len
    lst = io.trajectories(path, first, last, frate, fmt, **kwds)
    case.check(isinstance(lst, list), 'trajectories() without iter_allowed '
        'must be a list', got=type(lst).__name__)
    it = list(io.trajectories(path, first, last, frate, fmt, iter_allowed=True,
        **kwds))
    case.check(sorted(int(t.trajid()) for t in lst) ==
        sorted(int(t.trajid()) for t in it),
        'the iterator gives other trajectories than the list')
    a = dict((int(t.trajid()), t) for t in lst)
    for t in it:
        case.check(int(t.trajid()) in a, 'the iterator gives other trajectories')
        for k, v in match.props_of(t).items():
            case.close(v, match.props_of(a[int(t.trajid())])[k],
                'iterator and list differ')
    return lst


def save_as(case, fmt, models):
    from flowtracks import io
    trajs = [gen.real_traj(m) for m in models]
    if fmt == 'npz':
        path = case.tmp() + '/'
        io.save_trajectories(path, trajs, {})
    else:
        path = case.path(case.pick(['a.h5', 'b.hdf']))
        if case.chance(.5):
            io.save_particles_table(path, trajs)
        else:
            gen.write_particles(path, models, case=case,
                order=case.pick(['traj', 'frames', 'shuffled']))
    return path


@R06.scenario(quick=240, thorough=5000)
def hdf_npz(case):
    """Ranges are inclusive, points out of them and short paths are dropped."""
    fmt = case.pick(['npz', 'hdf', 'hdf'])
    lo = case.pick([0, 96, 10001])
    models = gen.traj_models(case,
        types=gen.types(case), first=lo, span=10, holes=case.chance(.3))
    path = save_as(case, fmt, models)
    first = case.pick([None, case.integer(lo, lo + 9)])
    last = case.pick([None, case.integer(max(lo, first or 0), lo + 9)])
    if case.chance(.05): # Nothing
        first, last = case.pick([(lo + 20, None), (lo + 20, lo + 24),
            (None, lo - 1)])
    min_len = case.pick([None, None, 0, 1, 2, 4])
    want = in_range(models, first, last, least(min_len))
    case.note(format=fmt, range=[first, last], min_len=min_len,
        spans=[(m.trajid, int(m.time()[0]), int(m.time()[-1])) for m in models])
    got = run_trajectories(case, path, first, last, min_len,
        case.pick([None, fmt]))
    match.same_traj_set(case, got, want, '%s [%s, %s]' % (fmt, first, last))
    if sum(map(len, want)) < sum(map(len, models)) and want:
        case.nontrivial(fmt, first, last, min_len, [m.props for m in models])


@R06.scenario(quick=120, thorough=2500)
def frame_files(case):
    """ptv_is, xuap and trajAcc through the general entry point."""
    fmt = case.pick(['ptvis', 'xuap', 'acc', 'single'])
    min_len = case.pick([None, 0, 1, 2, 3, 5])
    given = fmt
    if fmt == 'acc':
        tmpl, paths = acc_dir(case)
        lo, hi = min(paths), max(paths)
        first = case.integer(lo, hi)
        last = case.integer(first, hi)
        if case.chance(.05):
            first, last = hi + 1, hi + 4
        want = acc_want(paths, first, last, least(min_len))
        everything = acc_want(paths, None, None)
    else:
        ch = small_run(case, first=0 if fmt == 'single' else None)
        first, last = (None, None) if fmt == 'single' else limits(case, ch)
        if fmt == 'single':
            given = 'ptvis'
            tmpl = case.path('frames.txt')
            with open(tmpl, 'w') as f:
                f.write('\n'.join(ch.ptvis_text(i, False) for i in ch.rows))
        elif fmt == 'ptvis':
            tmpl = gen.write_frames(case, ch.ptvis_text, list(ch.rows),
                'ptv_is.%d')
        else:
            tmpl = gen.write_frames(case, lambda f: ch.xuap_text(f, case),
                list(ch.rows), 'xuap.%d')
        want = ch.expected(first, last, 10., least(min_len), fmt == 'xuap')
        everything = ch.expected(xuap=fmt == 'xuap', min_len=1)
    case.note(format=fmt, range=[first, last], min_len=min_len, paths=len(want))
    got = run_trajectories(case, tmpl, first, last, min_len,
        case.pick([None, given]), 10.)
    compare(case, got, want, 'trajectories() of ' + fmt, kinematics=True)
    if 0 < len(want) < len(everything):
        case.nontrivial(fmt, [w[:2] for w in want.values()], first, last)


@R06.scenario(quick=50, thorough=1000)
def mat_files(case):
    models = gen.traj_models(case, extra={'accel': 'vec'}, span=6)
    path = case.path('x.mat')
    write_mat(case, path, models)
    min_len = case.pick([None, 1, 2, 3, 5])
    want = [m for m in models if len(m) >= (least(min_len))]
    got = run_trajectories(case, path, None, None, min_len,
        case.pick([None, 'mat']))
    match.same_traj_set(case, got, want, 'mat', rtol=1e-9)
    case.note(lengths=[len(m) for m in models], min_len=min_len)
    if len(want) < len(models):
        case.nontrivial(min_len, [m.props for m in models])


@R06.scenario(quick=80, thorough=1500, floor=5)
def inference(case):
    """The format is inferred from the name, wherever the file is."""
    from flowtracks import io
    d = case.pick(['', '/data/run_1/', '../x/', '/tmp/set3/', 'deep/er/',
        '/data/run.mat/', 'x.h5/', 'mat/', 'a.txt.d/', '/y.hdf.out/', 'npz/'])
    n = case.integer(0, 99)
    names = {'mat': ['a%d.mat' % n, 'traj.mat'], 'npz': ['out%d/' % n],
        'ptvis': ['ptv_is.%d', 'b_ptv_is.%d', 'frames%02d.txt' % n],
        'xuap': ['xuap.%d', 'my_xuap_%d'], 'hdf': ['p%d.h5' % n, 'p.hdf'],
        'acc': ['trajAcc.%d', 'acc%d_' % n + '%d']}
    fmt = case.pick(sorted(names))
    name = d + case.pick(names[fmt])
    case.note(name=name, format=fmt)
    case.check(io.infer_format(name) == fmt, 'inferred format of ' + name,
        got=io.infer_format(name), want=fmt)
    case.nontrivial(name)
