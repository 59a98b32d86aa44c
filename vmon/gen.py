"""
Workload generators. Each returns the library's input together with a model of
it (plain dictionaries and arrays that share no memory with the input), from
which oracles derive what must come out.
"""
import contextlib, os, re, warnings
import numpy as np


@contextlib.contextmanager
def spelled(case, path, home=True):
    """
    The same path, spelled in one of several ways: absolute, from its directory,
    from the one above, or from the home directory.
    """
    d, base = os.path.split(path)
    up, name = os.path.split(d)
    cwd, old = os.getcwd(), os.environ.get('HOME')
    kind = case.pick(['', '', '', 'here', 'dot', 'up'] + ['home']*home)
    try:
        if kind in ('here', 'dot'):
            os.chdir(d)
        elif kind == 'up':
            os.chdir(up)
        elif kind == 'home':
            os.environ['HOME'] = up
        yield {'': path, 'here': base, 'dot': os.path.join('.', base), 'up':
            os.path.join(name, base), 'home': os.path.join('~', name, base)}[kind]
    finally:
        os.chdir(cwd)
        if old is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = old


def other_text(text):
    """The same text with other fractions in its numbers."""
    def turn(match):
        digits = match.group(1)
        if not digits.strip('0'):
            return match.group(0)
        return '.' + ''.join('%d' % ((int(c) + 3) % 10) for c in digits)
    return re.sub(r'\.(\d{3,})', turn, text)


def other_table(path):
    """Moves the particles of an HDF5 file."""
    import tables
    with tables.open_file(path, 'a') as f:
        pos = f.root.particles.col('pos')
        f.root.particles.modify_column(column=pos + 1, colname='pos')


def formerly(case, paths, reader, alter=None, chance=.12):
    """
    Now and then, the files had other contents of the same size shortly before, 
    and were read then. Nothing of that may be seen later.
    """
    if not case.chance(chance):
        return
    was = {}
    for path in paths:
        with open(path, 'rb') as f:
            was[path] = f.read(), os.stat(path).st_mtime_ns
    for path in paths:
        if alter is not None:
            alter(path)
        else:
            with open(path, 'w', newline='') as f:
                f.write(other_text(was[path][0].decode()))
        os.utime(path, ns=(was[path][1]//10**9*10**9,)*2)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            reader()
    except Exception:
        pass # It isn't what is checked.
    for path in paths:
        with open(path, 'wb') as f:
            f.write(was[path][0])
        os.utime(path, ns=(was[path][1]//10**9*10**9 + 5*10**7,)*2)
    case.count('files written over', len(paths))


def read_frames(tmpl):
    from flowtracks import io
    io.trajectories(tmpl, None, None, 1.)
    list(io.iter_trajectories_ptvis(tmpl, xuap='xuap' in tmpl))


def read_scene(path):
    from flowtracks import io
    from flowtracks.scene import Scene
    sc = Scene(path)
    list(sc.iter_trajectories())
    list(sc.iter_frames())
    list(sc.iter_segments())
    sc.bounding_box()
    sc.collect(['pos', 'time'])
    sc.collect(['pos'], {'time': (-1, 10**6, False)})
    io.trajectories_table(path)


def interleaved(case, its):
    """What each of the iterators gives when they are advanced in random turns."""
    its, out = [iter(it) for it in its], [[] for _ in its]
    left = list(range(len(its)))
    while left:
        i = case.pick(left)
        for _ in range(case.pick([1, 1, 1, 2, 5])):
            try:
                out[i].append(next(its[i]))
            except StopIteration:
                left.remove(i)
                break
    return out


class T(object):
    """Model of a trajectory: id, and arrays by name, one row per time point."""
    def __init__(self, trajid, props, kinds=None):
        self.trajid = trajid
        self.props = props
        self.kinds = kinds   # of the properties beyond the usual ones

    def __len__(self):
        return len(self.props['time'])

    def time(self):
        return self.props['time']

    def rows(self, mask):
        return T(self.trajid, dict((k, v[mask]) for k, v in self.props.items()),
            self.kinds)

    def copy(self):
        return T(self.trajid, dict((k, v.copy()) for k, v in self.props.items()),
            self.kinds)


def flow(pos, t):
    """A smooth field, to make data that differ everywhere."""
    x, y, z = np.moveaxis(pos, -1, 0)
    return np.stack((np.sin(3*x + t) + y, np.cos(2*y - t)*z + x, x*y - z + .3*t),
        axis=-1)


# Where ids do not go through floating-point formats.
WIDE_IDS = {'R07', 'R08', 'R09', 'R11', 'R13', 'R14', 'R15', 'R16', 'R17', 'R18',
    'R19', 'R28', 'R32'}


def unique_ids(case, n, start0=None):
    """Distinct ids in arbitrary order, not contiguous in most cases."""
    if start0 if start0 is not None else case.chance(.3):
        return [int(i) for i in case.rng.permutation(n)]
    wide = 2**55 if case.prop in WIDE_IDS else 2**24
    return [int(i) for i in case.rng.permutation(4*n + 7)[:n]
        + case.pick([0, 1, 1000, 0, 1, 1000, 2**24, 5*10**9, wide])]


PROP_KINDS = ('vec', 'scalar', 'int', 'vec2', 'f4', 'mat', 'i2', 'col', 'bool')


def prop_values(case, kind, n):
    r = case.rng
    if kind == 'vec':
        return r.normal(size=(n, 3))
    if kind == 'scalar':
        return r.normal(size=n)
    if kind == 'int':
        return r.integers(-1000, 1000, n)
    if kind == 'vec2':
        return r.normal(size=(n, 2))
    if kind == 'f4':
        return r.normal(size=(n, 3)).astype(np.float32)
    if kind == 'mat':
        return r.normal(size=(n, 3, 3))
    if kind == 'i2':
        return r.integers(-30000, 30000, (n, 2)).astype(np.int16)
    if kind == 'col':
        return r.normal(size=(n, 1))
    if kind == 'bigint':
        return case.pick([1, -1])*2**60 + r.integers(0, 8, n)
    if kind == 'bool':
        return r.random(n) < .5
    raise AssertionError(kind)


def extra_schema(case, most=3):
    names = ['accel', 'temper', 'label', 'pair_ab', 'vel_pp', 'alpha_1', 't',
        'trid', 'id']
    names = [names[i] for i in case.rng.permutation(len(names))]
    names = names[:case.integer(0, most)]
    return dict((n, case.pick(PROP_KINDS)) for n in names)


def types(case):
    """Types of frame numbers and of positions and velocities."""
    return (case.pick([np.int64]*6 + [np.int32, np.int16, np.uint16, np.uint8]),
        case.pick([np.float64]*6 + [np.float32]))


def traj_models(case, n=None, first=0, span=8, holes=False, extra=None,
        min_len=1, max_len=None, float_time=False, ids=None, types=None):
    """
    n trajectories, each contiguous (or with holes) in frames
    first ... first + span - 1.
    """
    if n is None:
        n = case.integer(1, 9)
    if case.big and ids is None and n > 1:
        n *= case.big
    if extra is None:
        extra = extra_schema(case)
    if ids is None:
        ids = unique_ids(case, n)
    int_time, real = types or (np.int64, np.float64)
    if first + span > np.iinfo(int_time).max or (first < 0 and
            np.iinfo(int_time).min == 0): # For one to be there after the last
        int_time = np.int64
    out = []
    for trid in ids:
        ln = case.integer(min(min_len, span), min(span, max_len or span))
        t0 = first + case.integer(0, span - ln)
        time = np.arange(t0, t0 + ln)
        if holes and ln > 2 and case.chance(.6):
            keep = case.rng.random(ln) < .7
            keep[0] = keep[-1] = True
            time = time[keep]
        pos = case.rng.uniform(-.1, .1, (len(time), 3)).astype(real)
        props = {'pos': pos, 'velocity': case.rng.normal(size=pos.shape).astype(
            real), 'time': time.astype(float if float_time else int_time)}
        for name, kind in extra.items():
            props[name] = prop_values(case, kind, len(time))
        out.append(T(trid, props, extra))
    if case.big and case.chance(.6):
        rounded(case, out, min(min_len, span))
    return out


def some_frames(case, least, most):
    """A number of frames, few in general."""
    if case.frames:
        return case.frames
    if case.chance(.07):
        return case.integer(most, 70) if case.chance(.7) else \
            max(round_number(case, 130), most)
    return case.integer(least, most)


def round_number(case, most):
    """A multiple of something round, or one beside it, from 7 to ``most``."""
    unit = case.pick([u for u in (8, 64, 100, 128, 250, 256, 500, 512, 1000, 1024)
        if u <= most + 1] or [8])
    return unit*case.integer(1, max(1, most // unit)) + case.pick([-1, 0, 0, 1, 1])


def rounded(case, models, min_len=1):
    """Takes some rows from the ends, so that their number is a round one."""
    rows = sum(map(len, models))
    extra = rows - round_number(case, rows - 1) if rows > 16 else 0
    for m in models:
        cut = min(len(m) - max(min_len, 1), extra)
        if cut > 0:
            m.props = m.rows(slice(0, len(m) - cut)).props
            extra -= cut


ROUND = [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049,
    4095, 4096, 4097, 5000, 8192, 8193, 10000, 10001, 16384, 16385]


def counted(case, long=None, most=20000):
    """
    Trajectories with a round number of points in all, or one beside it: a few
    long ones, or many in few frames, one of which has such a number of them.
    """
    rows = case.pick([n for n in ROUND if n <= most])
    long = case.chance(.5) if long is None else long
    if long:
        n = case.integer(1, 4)
        cuts = sorted(int(c) for c in case.rng.choice(np.arange(1, rows), n - 1,
            replace=False))
        ends = np.diff([0] + cuts + [rows])
        spans = [(case.integer(0, 50), int(ln)) for ln in ends]
    else: # Frame 1 has exactly that number; others some.
        spans = [case.pick([(1, 1), (0, 2), (1, 2), (1, 1)])
            for _ in range(rows)]
    ids = unique_ids(case, len(spans))
    return [T(i, {'pos': case.rng.uniform(-.1, .1, (ln, 3)),
        'velocity': case.rng.normal(size=(ln, 3)),
        'time': np.arange(t, t + ln), 'serial': np.arange(ln) + 7*i}, {'serial':
        'int'}) for i, (t, ln) in zip(ids, spans)]


def real_traj(model):
    """The library's object, of copies of the model's arrays."""
    from flowtracks.trajectory import Trajectory
    kwds = dict((k, v.copy()) for k, v in model.props.items())
    if model.trajid % 7 == 3: # Read from files of another machine
        name = sorted(kwds)[model.trajid % len(kwds)]
        kwds[name] = kwds[name].astype(kwds[name].dtype.newbyteorder('>'))
    if model.trajid % 2: # Not all have their properties in the same order.
        kwds = dict(reversed(list(kwds.items())))
    trid = model.trajid
    if trid % 5 > 1: # As read from files, they may have various types.
        trid = np.asarray(trid, [np.int64, np.int32, np.uint8][trid % 5 - 2] if
            0 <= trid < 256 else np.int64)[()]
    res = Trajectory(trajid=trid, **dict((k, v) for k, v in kwds.items()
        if model.trajid % 3 or k in ('pos', 'velocity', 'time')))
    for k, v in kwds.items(): # Some are added later.
        if not res.has_property(k):
            res.create_property(k, v)
    return res


def mixed_types(case, models):
    """Some trajectories have some properties in smaller types."""
    for m in models:
        for name, v in list(m.props.items()):
            if not case.chance(.3):
                continue
            if v.dtype.kind == 'f':
                m.props[name] = v.astype(case.pick([np.float32, np.float32,
                    np.float16]))
            elif v.dtype.kind in 'iu' and len(v):
                small = case.pick([np.int32, np.int16, np.uint16, np.uint8])
                info = np.iinfo(small)
                if info.min <= v.min() and v.max() <= info.max:
                    m.props[name] = v.astype(small)


def frames_of(models):
    """{time: [(model, row)]}, by time."""
    res = {}
    for tr in models:
        for row, t in enumerate(tr.time()):
            res.setdefault(int(t), []).append((tr, row))
    return dict(sorted(res.items()))


def write_particles(path, models, bounds=True, order='traj', case=None,
        attrs=False):
    """
    An HDF5 scene file, written by PyTables alone (not by the library). Rows in
    the order of trajectories, of frames, or shuffled.
    """
    import tables
    rows = [(tr, i) for tr in models for i in range(len(tr))]
    if order == 'frames':
        rows.sort(key=lambda r: r[0].time()[r[1]])
    elif order == 'shuffled':
        # Time order within a trajectory stays, that is all iteration promises.
        perm = case.rng.permutation(len(rows))
        slots = {}
        mixed = [rows[i] for i in perm]
        for tr, i in rows:
            slots.setdefault(tr.trajid, []).append((tr, i))
        nxt = dict((k, iter(v)) for k, v in slots.items())
        rows = [next(nxt[tr.trajid]) for tr, _ in mixed]
    names = list(models[0].props)
    dt = np.dtype([('trajid', int)] + [(n, models[0].props[n].dtype,
        models[0].props[n].shape[1:]) for n in names])
    arr = np.zeros(len(rows), dtype=dt)
    for j, (tr, i) in enumerate(rows):
        arr['trajid'][j] = tr.trajid
        for n in names:
            arr[n][j] = tr.props[n][i]
    f = tables.open_file(path, 'w')
    tab = f.create_table('/', 'particles', dt)
    tab.append(arr)
    tab.cols.trajid.create_index()
    tab.cols.time.create_index()
    if attrs:
        tab._v_attrs.min_pos = arr['pos'].min(axis=0)
        tab._v_attrs.max_pos = arr['pos'].max(axis=0)
    if bounds:
        b = f.create_table('/', 'bounds', np.dtype(
            [('trajid', int), ('first', int), ('last', int)]))
        b.append([(tr.trajid, int(tr.time().min()), int(tr.time().max()))
            for tr in models])
        b.cols.trajid.create_index()
    f.flush() # or else HDF5 keeps it open.
    f.close()
    if case is not None:
        formerly(case, [path], lambda: read_scene(path), other_table)
    return arr


# ------------------------------------------------------------- ptv_is / xuap

class Chains(object):
    """
    A tracking run: particles that appear, live for some frames and vanish, in
    frames whose rows are in arbitrary order.
    """
    def __init__(self, case, frames=None, first=None, rate=3., survive=.8,
            empty=.0, distinct=False, size=100.):
        r = case.rng
        if frames is None:
            frames = case.integer(2, 12)
            if case.chance(.04): # a long run, with long trajectories
                frames, survive = case.integer(40, 150), .98
                rate = min(rate, 1.)
        if first is None:
            first = case.pick([0, 1, 7, 8, 95, 98, 997, 10001])
        self.first, self.last = first, first + frames - 1
        self.rows = {}   # frame -> list of chain numbers, by row
        self.pos = {}    # (frame, chain) -> text of the 3 coordinates
        self.vel = {}
        self.span = {}   # chain -> [first, last] (last may be beyond the run)
        self.born = 0
        alive, still = [], set() # some particles do not move.
        if case.big:
            rate *= case.big
        self.digits = digits = case.pick([1, 3, 3, 6, 12])
        self.layout = case.pick(['', '', '', 'tabs', 'broad', 'ragged'])
        same_place = case.chance(.2)
        if distinct:
            self.digits = digits = 6 if size > 1. else 9
            same_place = False
        for f in range(self.first, self.last + 1):
            if r.random() < empty:
                for c in alive:
                    self.span[c][1] = f - 1
                alive = []
                self.rows[f] = []
                continue
            stay = []
            for c in alive:
                if r.random() < survive:
                    stay.append(c)
                else:
                    self.span[c][1] = f - 1
            new = int(r.poisson(rate if f > self.first else 2*rate + 1))
            if len(stay) + new == 0:
                new = 1
            for _ in range(new):
                self.span[self.born] = [f, None]
                if r.random() < .1:
                    still.add(self.born)
                stay.append(self.born)
                self.born += 1
            alive = [stay[i] for i in r.permutation(len(stay))]
            self.rows[f] = list(alive)
            for c in alive:
                p = r.uniform(-size, size, 3)
                if same_place:
                    p = np.round(p / size*2)*size/2
                self.pos[f, c] = ['%.*f' % (digits, x) for x in p]
                self.vel[f, c] = ['%.6f' % x for x in r.normal(size=3)]
                if c in still:
                    self.vel[f, c] = ['0.000000']*3
                    if (f - 1, c) in self.pos:
                        self.pos[f, c] = list(self.pos[f - 1, c])
        for c in alive: # Continue beyond the end, or not.
            self.span[c][1] = self.last + case.pick([0, 0, 1])
        
        # Frames of a recording at rest, or whose velocities were not found.
        if case.chance(.15):
            portion = case.pick([.2, .5, 1.])
            for f in self.rows:
                if r.random() < portion:
                    for c in self.rows[f]:
                        self.vel[f, c] = ['0.000000']*3

    def link(self, f, c, base=0):
        """prev and next columns."""
        first, last = self.span[c]
        prev = self.rows[f - 1].index(c) + base if f > first else -1
        if f >= last:
            nxt = -2
        elif f == self.last:
            nxt = 0 # Row of a frame after the run
        else:
            nxt = self.rows[f + 1].index(c)
        return prev, nxt

    def spread(self, cols):
        """Columns as a line, in one of several layouts."""
        if self.layout == 'tabs':
            return '\t'.join(cols)
        if self.layout == 'broad':
            return ''.join(' %32s' % c for c in cols)
        if self.layout == 'ragged':
            return '  ' + ' \t '.join(cols) + '   '
        return ' '.join('%4s' % c if i < 2 else '%10s' % c
            for i, c in enumerate(cols))

    def ptvis_text(self, f, header=True):
        lines = ['%d' % len(self.rows[f])] if header else []
        for c in self.rows[f]:
            p, n = self.link(f, c)
            lines.append(self.spread(['%d' % p, '%d' % n] + self.pos[f, c]))
        return ''.join(l + '\n' for l in lines)

    def xuap_text(self, f, case, extra_cols=True):
        lines = []
        for c in self.rows[f]:
            p, n = self.link(f, c)
            vals = ['%.6f' % (p + 1), '%.6f' % (n + 1)] + self.pos[f, c] \
                + ['%.6f' % (float(x) + d) for x, d in zip(
                    self.pos[f, c], case.rng.normal(0., 1e-3, 3))] \
                + self.vel[f, c] \
                + ['%.6f' % x for x in case.rng.normal(size=3)]
            if extra_cols:
                vals.append('1.000000')
            lines.append(self.spread(vals))
        return ''.join(l + '\n' for l in lines)

    def expected(self, first=None, last=None, frate=1., min_len=2, xuap=False):
        """
        The trajectories in the files of the range: (times, positions,
        velocity, acceleration) keyed by chain number.
        """
        a = self.first if first is None else max(first, self.first)
        b = self.last if last is None else min(last, self.last)
        res = {}
        for c, (s, e) in self.span.items():
            s = max(s, a)
            if e > b or e < s or e - s + 1 < min_len:
                continue
            t = np.arange(s, e + 1)
            pos = np.array([[float(x) for x in self.pos[f, c]] for f in t])
            vel = np.zeros_like(pos)
            if xuap:
                vel[:] = [[float(x) for x in self.vel[f, c]] for f in t]
            else:
                pos /= 1000.
                vel[:-1] = (pos[1:] - pos[:-1]) * frate
            acc = np.zeros_like(pos)
            acc[:-2] = (vel[1:-1] - vel[:-2]) * frate
            res[c] = (t, pos, vel, acc)
        return res


def write_frames(case, text, frames, tmpl=None, strays=True, zero_pad=False):
    """Frame files, by text(frame). Returns the template's full path."""
    d = case.tmp()
    if tmpl is None:
        tmpl = case.pick(['ptv_is.%d', 'ptv_is.%d', 'ptv_is_%d.dat', 'a+b.ptv_is.%d',
            '%d.ptv_is', 'run(1).ptv_is.%d'])
    for f in frames:
        with open(os.path.join(d, tmpl % f), 'w') as out:
            out.write(text(f))
    formerly(case, [os.path.join(d, tmpl % f) for f in frames],
        lambda: read_frames(os.path.join(d, tmpl)))
    if strays and case.chance(.6):
        some = frames[len(frames)//2]
        for name in [tmpl % some + '.bak', tmpl % some + '~', 'old_' + tmpl % some,
                'README', tmpl.replace('%d', ''), tmpl.replace('%d', 'last'),
                (tmpl % (max(frames) + 1)).replace('.', 'X'),
                'targets.%d' % some]:
            path = os.path.join(d, name)
            if not os.path.exists(path):
                with open(path, 'w') as out:
                    out.write('junk, not a frame\n')
    return os.path.join(d, tmpl)
