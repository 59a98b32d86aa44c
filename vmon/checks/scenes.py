"""HDF5 scenes: iteration, lookups, segments, ranges, queries, dual scenes."""
import itertools
import numpy as np

from .. import gen, match
from ..core import Property

PRE = ['a trajectory has at most one row per frame, and its rows are in the file '
    'in time order', 'nobody writes the file or sets the range while iterating']

R13 = Property('R13',
    'Random particle tables (rows in trajectory order, frame order or shuffled; '
    'with and without the table of bounds; holes; any frame range) iterated by '
    'frames and by trajectories and looked up by id and time; all results and '
    'their totals are compared with the table. Non-trivial: at least two '
    'trajectories and three frames with particles.', PRE)
R14 = Property('R14',
    'The tables of R13 iterated by segments; each pair of frames is compared row '
    'by row with brute force. Non-trivial: some pair had at least two particles '
    'which continue and one that does not.', PRE)
R15 = Property('R15',
    'Random histories on one scene: setting ranges, iterating (to the end or '
    'not) by frames, trajectories and segments, lookups and collection, with '
    'every result compared with brute force for the range then set. Non-trivial: '
    'at least two range changes, and results under two different ranges.', PRE)
R16 = Property('R16',
    'Random tables, requested columns, frame ranges and conditions (both kinds, '
    'on several columns, with bounds that are exactly values in the data); the '
    'collected rows are compared with brute force. Non-trivial: the conditions '
    'select some rows but not all.', PRE)
R17 = Property('R17',
    'Random pairs of particle and tracer files opened as a dual scene (directly '
    'or from a configuration file) and random histories of frame and segment '
    'iterations, with temporary ranges or not, finished, left early, or ended by '
    'an exception; every frame is compared with the files. Non-trivial: an '
    'iteration with another range, followed by one with the default range.',
    PRE + ['without a range, both files have the same first and last frames'])


def write(case, models=None, **kwds):
    if models is None:
        models = gen.traj_models(case,
            types=gen.types(case), n=case.integer(1, 8),
            first=case.pick([0, 4, 10001, -3]), span=case.integer(2, 9)
            if not case.chance(.04) else case.integer(30, 300),
            holes=case.chance(.4), float_time=case.chance(.15), **kwds)
    path = case.path('scene.h5')
    order = case.pick(['traj', 'frames', 'shuffled'])
    bounds = case.chance(.6)
    gen.write_particles(path, models, bounds=bounds, order=order, case=case,
        attrs=case.chance(.4))
    case.note(order=order, bounds=bounds, trajectories=[(m.trajid, len(m),
        int(m.time()[0]), int(m.time()[-1])) for m in models])
    return path, models


def span(models):
    t = np.concatenate([m.time() for m in models])
    return int(t.min()), int(t.max())


def random_range(case, models):
    """None or (first, after last), any of which may be None or off the data."""
    lo, hi = span(models)
    kind = case.integer(0, 5)
    if kind == 0:
        return None
    a = case.integer(lo - 2, hi)
    b = case.integer(a + 1, hi + 3)
    return [(a, b), (a, b), (a, None), (None, max(b, lo + 1)), (None, None)][
        kind - 1]


def effective(models, rng):
    lo, hi = span(models)
    a, b = (None, None) if rng is None else rng
    return lo if a is None else a, hi + 1 if b is None else b


def ranged(models, rng):
    a, b = (None, None) if rng is None else rng
    out = []
    for m in models:
        keep = np.ones(len(m), dtype=bool)
        if a is not None:
            keep &= m.time() >= a
        if b is not None:
            keep &= m.time() < b
        out.append(m.rows(keep))
    return out


def check_frames(case, it, models, rng, what, most=None):
    """Consumes at most so many frames."""
    frames = gen.frames_of(models)
    a, b = effective(models, rng)
    t = a
    for snap in it:
        case.check(t < b, what + ': a frame after the range', got=snap.time(),
            range=[a, b])
        match.same_snapshot(case, snap, frames.get(t, []), t, what, 0, 0)
        t += 1
        if most is not None and t - a >= most:
            return
    case.check(t == b, what + ': frames are missing', next=t, range=[a, b])


def check_trajectories(case, it, models, rng, what, most=None):
    want = dict((m.trajid, m) for m in ranged(models, rng))
    seen = set()
    for tr in it:
        trid = int(tr.trajid())
        case.check(trid in want and trid not in seen, what + ': unknown or '
            'repeated trajectory', got=trid)
        seen.add(trid)
        match.same_traj(case, tr, want[trid], what, 0, 0)
        case.count('trajectories compared')
        if most is not None and len(seen) >= most:
            return
    missing = [k for k, m in want.items() if k not in seen and len(m)]
    case.check(not missing, what + ': trajectories are missing', ids=missing)


def check_segments(case, it, models, rng, what, most=None):
    """Returns the largest number of particles which continue in a mixed frame."""
    frames = gen.frames_of(models)
    a, b = effective(models, rng)
    t, mixed = a, 0
    for frame, nxt in it:
        case.check(t + 1 < b, what + ': a segment after the range',
            got=frame.time(), range=[a, b])
        now = dict((m.trajid, (m, i)) for m, i in frames.get(t, []))
        then = dict((m.trajid, (m, i)) for m, i in frames.get(t + 1, []))
        both = [k for k in now if k in then]
        match.same_snapshot(case, frame, [now[k] for k in both], t, what, 0, 0)
        match.same_snapshot(case, nxt, [then[k] for k in both], t + 1,
            what + ', next frame', 0, 0)
        case.equal(frame.trajid(), nxt.trajid(), what + ': particles of frame %d '
            'and the next are not in the same order' % t)
        case.count('segments compared', len(both))
        if len(now) > len(both) or len(then) > len(both):
            mixed = max(mixed, len(both))
        t += 1
        if most is not None and t - a >= most:
            return mixed
    case.check(t == max(a, b - 1), what + ': segments are missing', next=t,
        range=[a, b])
    return mixed


@R13.scenario(quick=150, thorough=3000)
def iteration(case):
    from flowtracks.scene import Scene
    path, models = write(case)
    rng = random_range(case, models)
    case.note(range=rng)
    scene = Scene(path, rng) if rng is not None or case.chance(.5) else Scene(path)
    case.check(tuple(scene.frame_range()) == effective(models, rng),
        'frame range', got=scene.frame_range(), want=effective(models, rng))
    check_frames(case, scene.iter_frames(), models, rng, 'frames')
    check_trajectories(case, scene.iter_trajectories(), models, rng,
        'trajectories')
    by_frames = sum(len(s) for s in scene.iter_frames())
    by_trajs = sum(len(t) for t in scene.iter_trajectories())
    case.check(by_frames == by_trajs == sum(map(len, ranged(models, rng))),
        'particles in all frames and points in all trajectories',
        frames=by_frames, trajectories=by_trajs)
    case.check(sorted(np.asarray(scene.trajectory_ids()).tolist()) ==
        sorted(m.trajid for m in models), 'trajectory ids',
        got=scene.trajectory_ids())
    for m in ranged(models, rng):
        match.same_traj(case, scene.trajectory_by_id(m.trajid), m,
            'trajectory by id', 0, 0)
    for t, rows in gen.frames_of(models).items():
        match.same_snapshot(case, scene.frame_by_time(t), rows, t,
            'frame by time', 0, 0)
    if case.chance(.4): # Several at a time, of one scene.
        kinds = [case.pick(['frames', 'trajectories', 'segments'])
            for _ in range(case.integer(2, 3))]
        outs = gen.interleaved(case, [getattr(scene, 'iter_' + k)()
            for k in kinds])
        for kind, out in zip(kinds, outs):
            {'frames': check_frames, 'trajectories': check_trajectories,
                'segments': check_segments}[kind](case, iter(out), models, rng,
                    'one of several iterations over ' + kind)
        case.count('iterations interleaved', len(kinds))
    if len(models) > 1 and len(gen.frames_of(models)) > 2:
        case.nontrivial(rng, [m.props for m in models])


@R13.scenario(quick=3, thorough=60)
def round_counts(case):
    """Round numbers of rows, in all or in a frame."""
    from flowtracks.scene import Scene
    long = case.chance(.3)
    path, models = write(case, gen.counted(case, long, 2049 if long else 20000))
    scene = Scene(path)
    check_frames(case, scene.iter_frames(), models, None, 'frames')
    if len(models) < 2100:
        check_trajectories(case, scene.iter_trajectories(), models, None,
            'trajectories')
    m = case.pick(models)
    match.same_traj(case, scene.trajectory_by_id(m.trajid), m,
        'trajectory by id', 0, 0)
    case.nontrivial([m.props for m in models])


@R14.scenario(quick=200, thorough=4000)
def segments(case):
    from flowtracks.scene import Scene
    path, models = write(case)
    rng = random_range(case, models)
    case.note(range=rng)
    scene = Scene(path, rng)
    if case.chance(.25): # Two at a time.
        its = gen.interleaved(case, [scene.iter_segments(), getattr(scene,
            case.pick(['iter_segments', 'iter_frames', 'iter_trajectories']))()])
        check_segments(case, iter(its[0]), models, rng, 'segments')
    if check_segments(case, scene.iter_segments(), models, rng, 'segments') > 1:
        case.nontrivial(rng, [m.props for m in models])


@R15.scenario(quick=110, thorough=2200)
def range_histories(case):
    from flowtracks.scene import Scene
    path, models = write(case)
    rng = random_range(case, models)
    scene = Scene(path, rng)
    ops, ranges = [], set()
    changes = 0
    frames = gen.frames_of(models)
    for step in range(case.integer(4, 12)):
        op = case.pick(['range', 'range', 'frames', 'trajs', 'segs', 'by_id',
            'by_time', 'collect', 'bounds'])
        most = case.pick([None, None, 1, 2])
        what = 'step %d, range %s' % (step, rng)
        if op == 'range':
            rng = random_range(case, models)
            scene.set_frame_range(rng)
            changes += 1
        elif op == 'frames':
            check_frames(case, scene.iter_frames(), models, rng, what, most)
        elif op == 'trajs':
            check_trajectories(case, scene.iter_trajectories(), models, rng,
                what, most)
        elif op == 'segs':
            check_segments(case, scene.iter_segments(), models, rng, what, most)
        elif op == 'by_id':
            m = case.pick(ranged(models, rng))
            match.same_traj(case, scene.trajectory_by_id(m.trajid), m, what, 0, 0)
        elif op == 'by_time':
            t = case.pick(list(frames))
            match.same_snapshot(case, scene.frame_by_time(t), frames[t], t, what,
                0, 0)
        elif op == 'collect':
            got = scene.collect(['pos', 'trajid', 'time'])
            check_rows(case, got, ['pos', 'trajid', 'time'],
                ranged(models, rng), what)
        elif op == 'bounds':
            lo, hi = span(models)
            if rng is None:
                b = scene.bounding_box()
                pos = np.vstack([m.props['pos'] for m in models])
                case.equal(b[0], pos.min(axis=0), what + ': bounding box')
                case.equal(b[1], pos.max(axis=0), what + ': bounding box')
        case.check(tuple(scene.frame_range()) == effective(models, rng),
            what + ': frame range', got=scene.frame_range())
        if op != 'range':
            ranges.add(effective(models, rng))
        ops.append(op)
    case.note(history=ops)
    case.count('operations', len(ops))
    if changes > 1 and len(ranges) > 1:
        case.nontrivial(ops, [m.props for m in models])


# ------------------------------------------------------------------ collection

def column(models, key):
    if key == 'trajid':
        return np.concatenate([np.full(len(m), m.trajid) for m in models])
    return np.concatenate([m.props[key] for m in models])


def check_rows(case, got, keys, models, what, mask=None):
    """Columns with corresponding rows, in any order of rows."""
    case.check(isinstance(got, list) and len(got) == len(keys),
        what + ': number of arrays', got=len(got), want=len(keys))
    want = [column(models, k) for k in keys]
    if mask is not None:
        want = [c[mask] for c in want]
    for k, g, w in zip(keys, got, want):
        case.check(np.shape(g) == w.shape, '%s: shape of %s' % (what, k),
            got=np.shape(g), want=w.shape)
    case.count('rows collected', len(want[0]))
    case.equal(match.sorted_rows(got), match.sorted_rows(want),
        what + ': rows of ' + ', '.join(keys))


def condition(case, vals):
    """A range (min, max, invert) and the rows it selects."""
    v = np.asarray(vals)
    whole = v.dtype.kind in 'iu'
    if whole and np.abs(v).max() > 2**50: # Beyond the precision of floats
        def bound():
            b = int(case.pick(v)) + case.pick([0, 0, 1, -1])
            return b if case.chance(.5) else np.int64(b)
    else:
        v = v.astype(float)
        def bound():
            if case.chance(.08):
                return case.pick([np.inf, -np.inf, float('inf')])
            b = float(case.pick(v))
            if not case.chance(.6):
                b += case.pick([0, 1e-9, -1e-9, .3, -.3])
            elif case.chance(.2):
                return np.float64(b)
            elif whole and case.chance(.3):
                return int(b)
            return b
    lo, hi = bound(), bound()
    if lo > hi and not case.chance(.1):
        lo, hi = hi, lo
    invert = case.chance(.4)
    if invert:
        return (lo, hi, True), (v < lo) | (v >= hi)
    return (lo, hi, False), (v >= lo) & (v < hi)


@R16.scenario(quick=260, thorough=5000)
def collection(case):
    from flowtracks.scene import Scene
    extra = gen.extra_schema(case)
    extra['speed'] = 'scalar'
    if case.chance(.5):
        extra['cls'] = 'int'
    if case.chance(.2):
        extra['code'] = 'bigint'
    path, models = write(case, extra=extra)
    rng = random_range(case, models)
    scene = Scene(path, rng)
    rows = ranged(models, rng)
    cols = sorted(models[0].props) + ['trajid']
    keys = [cols[i] for i in case.rng.permutation(len(cols))[:case.integer(1,
        min(4, len(cols)))]]
    if case.chance(.1): # The same column twice
        keys.append(case.pick(keys))
    where, mask = None, np.ones(sum(map(len, rows)), dtype=bool)
    if len(mask) and case.chance(.8):
        where = {}
        scalars = [c for c in cols if column(models, c).ndim == 1]
        for i in case.rng.permutation(len(scalars))[:case.pick([1, 1, 2, 2, 3])]:
            where[scalars[i]], sel = condition(case, column(rows, scalars[i]))
            mask = mask & sel
    case.note(range=rng, keys=keys, where=where, selected=int(mask.sum()),
        of=len(mask))
    if where is None:
        got = scene.collect(keys)
    else:
        keep = dict(where)
        got = scene.collect(keys, where)
        case.check(where == keep, 'the conditions were modified')
    check_rows(case, got, keys, rows, 'collect', mask)
    if 0 < mask.sum() < len(column(models, 'trajid')):
        case.nontrivial(rng, keys, where, [m.props for m in models])


@R16.scenario(quick=8, thorough=160)
def round_counts(case):
    """Round numbers of rows, in all or in a frame."""
    from flowtracks.scene import Scene
    path, models = write(case, gen.counted(case))
    scene = Scene(path)
    keys = case.pick([['pos'], ['pos', 'trajid'], ['time', 'serial', 'velocity']])
    check_rows(case, scene.collect(keys), keys, models, 'collect')
    lo, hi = scene.bounding_box()
    pos = column(models, 'pos')
    case.equal(lo, pos.min(axis=0), 'bounding box, low end')
    case.equal(hi, pos.max(axis=0), 'bounding box, high end')
    where, sel = condition(case, column(models, 'serial'))
    check_rows(case, scene.collect(keys, {'serial': where}), keys, models,
        'collect with a condition', sel)
    rng = random_range(case, models)
    scene.set_frame_range(rng)
    check_rows(case, scene.collect(keys), keys, ranged(models, rng),
        'collect from a range')
    case.nontrivial([m.props for m in models])


@R16.scenario(quick=100, thorough=1500)
def metadata(case):
    """Names, shapes, ids and their spans, and extreme positions."""
    from flowtracks.scene import Scene
    path, models = write(case)
    box = None
    if case.chance(.3): # Noted in the file, so that it is not searched for.
        import tables
        box = case.rng.uniform(-1, 1, (2, 3))
        with tables.open_file(path, 'a') as f:
            f.root.particles._v_attrs.min_pos = box[0]
            f.root.particles._v_attrs.max_pos = box[1]
    scene = Scene(path)
    props = dict((k, v) for k, v in models[0].props.items() if k != 'time')
    case.check(sorted(scene.keys()) == sorted(props), 'keys', got=scene.keys(),
        want=sorted(props))
    for k, n in zip(scene.keys(), scene.shapes()):
        if props[k].ndim > 2:
            continue # What is meant for matrices is not documented.
        want = 1 if props[k].ndim == 1 else props[k].shape[1]
        case.check(n == want, 'shape of ' + k, got=n, want=want)
    case.check(len(scene.keys()) == len(scene.shapes()), 'shapes and keys')
    lo, hi = scene.bounding_box()
    pos = column(models, 'pos')
    case.equal(lo, pos.min(axis=0) if box is None else box[0],
        'bounding box, low end')
    case.equal(hi, pos.max(axis=0) if box is None else box[1],
        'bounding box, high end')
    if case.sample['bounds']:
        tags = np.asarray(scene.trajectory_tags())
        want = [[m.trajid, int(m.time()[0]), int(m.time()[-1])] for m in models]
        case.check(sorted(tags.tolist()) == sorted(want), 'trajectory tags',
            got=tags, want=want)
    if len(models) > 1:
        case.nontrivial([m.props for m in models])


@R16.scenario(quick=100, thorough=2000)
def query_strings(case):
    """The generated condition means what the range specification means."""
    from flowtracks.scene import gen_query_string
    vals = case.rng.normal(size=8)*10.**case.integer(-9, 6)
    if case.chance(.3):
        vals = np.rint(vals)
    (lo, hi, inv), mask = condition(case, vals)
    s = gen_query_string('example', (lo, hi, inv))
    got = eval(s, {'example': vals, '__builtins__': {}})
    case.note(spec=[lo, hi, inv], query=s)
    case.equal(got, mask, 'rows selected by ' + s)
    if 0 < mask.sum() < 8:
        case.nontrivial(lo, hi, inv, vals)


# ------------------------------------------------------------------ dual scene

def dual_files(case, lo=None):
    """
    Returns [particles file, its models, tracers file, its models], the range,
    and whether both files have data at both ends of it.
    """
    lo = case.pick([0, 10001, -2]) if lo is None else lo
    n = gen.some_frames(case, 3, 8)
    files = []
    whole = case.chance(.65)
    sparse = case.chance(.5)
    for _ in range(2):
        types = gen.types(case)
        models = gen.traj_models(case,
            types=types, n=case.integer(2, 7), first=lo, span=n,
            holes=case.chance(.3))
        if not whole:
            files.append(write(case, models)[0])
            files.append(models)
            continue
        # All of the range is in the file:
        models += gen.traj_models(case,
            types=types, n=1, first=lo, span=n, min_len=n,
            ids=[99999], extra=models[0].kinds)
        if sparse: # Frames inside it may have nothing, or nothing that continues
            keep = case.rng.random(n) < .4
            keep[0] = keep[-1] = True
            models[-1] = models[-1].rows(keep)
        files.append(write(case, models)[0])
        files.append(models)
    return files, (lo, lo + n), whole


class Enough(Exception):
    pass


@R17.scenario(quick=90, thorough=1800)
def dual_histories(case):
    from flowtracks.scene import DualScene, read_dual_scene
    from flowtracks.particle import Particle
    (pfile, parts, tfile, tracers), full, whole = dual_files(case)
    lo, hi = full
    default = case.pick([full, full, (lo, hi - 1), (lo + 1, hi)] + ([
        (lo + 1, None), (None, hi - 1), (None, None)] if whole else []))
    def bounds(rng):
        a, b = (None, None) if rng is None else rng
        return lo if a is None else a, hi if b is None else b
    diam, dens, frate = case.rng.uniform(.1, 5, 3).tolist()
    if None not in default and case.chance(.5):
        conf = case.path('dual.cfg')
        with open(conf, 'w') as f:
            f.write('[Particle]\ndensity = %r\ndiameter = %r\n[Scene]\n'
                'particles file = %s\ntracers file = %s\nfirst frame = %d\n'
                'last frame = %d\nframe rate = %r\n' % (dens, diam, pfile, tfile,
                default[0], default[1] - 1, frate))
        dual = read_dual_scene(conf)
    else:
        if default == full and whole and case.chance(.5):
            default = None
        dual = DualScene(tfile, pfile, frate, Particle(diam, dens), default)
    case.equal([dual.frate, dual.part.diam, dual.part.density],
        [frate, diam, dens], 'dual scene: scalars')
    case.close([dual.part.volume(), dual.part.mass()],
        [np.pi/6*diam**3, np.pi/6*diam**3*dens], 'volume and mass')
    case.check(dual.get_particles_path() == pfile, 'particles path',
        got=dual.get_particles_path())
    case.check(dual.get_range() == default, 'range of the dual scene',
        got=dual.get_range(), want=default)
    ops, other, nontriv = [], False, False
    for step in range(case.integer(2, 6)):
        op = case.pick(['frames', 'segs', 'frames', 'segs', 'scenes', 'both'])
        if op == 'both': # Two at a time.
            outs = gen.interleaved(case, [dual.iter_frames(), dual.iter_frames(),
                dual.iter_segments()])
            a, b = bounds(default)
            for which, models in (('particles', parts), ('tracers', tracers)):
                frames = gen.frames_of(models)
                for items in outs[:2]:
                    case.check(len(items) == b - a, 'number of frames of one of '
                        'two iterations', got=len(items), want=b - a)
                    for t, frm in enumerate(items, a):
                        match.same_snapshot(case, getattr(frm, which),
                            frames.get(t, []), t, 'one of two iterations, ' +
                            which, 0, 0)
                check_segments(case, iter([(getattr(f, which), getattr(n, which))
                    for f, n in outs[2]]), models, (a, b), 'one of two '
                    'iterations, ' + which)
            ops.append(op)
            continue
        sub = case.pick([-1, -1, 'new'])
        if sub == 'new':
            a = case.integer(lo, hi - 1)
            sub = case.pick([(a, case.integer(a + 1, hi)), (a, hi), default,
                None if whole else full, (a, None) if whole else full,
                (None, a + 1) if whole else full])
        rng = default if sub == -1 else sub
        a, b = bounds(rng)
        stop = case.pick([None, None, 1, 2, 'exception'])
        what = 'step %d, %s of %s' % (step, op, rng)
        if op == 'scenes':
            check_frames(case, dual.get_particles().iter_frames(), parts,
                default, what + ', particles')
            check_frames(case, dual.get_tracers().iter_frames(), tracers,
                default, what + ', tracers')
            ops.append(op)
            continue
        elif sub != -1 and case.chance(.3): # One of the two has been set to another range.
            sc = case.pick([dual.get_particles(), dual.get_tracers()])
            c = case.integer(lo, hi - 1)
            sc.set_frame_range((c, case.integer(c + 1, hi)))
            what += ' after setting the range of one scene'
        args = [] if sub == -1 else [sub]
        it = dual.iter_frames(*args) if op == 'frames' else \
            dual.iter_segments(*args)
        items = []
        try:
            for i, item in enumerate(it):
                items.append(item)
                if stop == 'exception' and i == 1:
                    raise Enough()
                if stop == i + 1:
                    break
                case.check(i < b - a + 3, what + ': too many frames')
            else:
                n = b - a if op == 'frames' else b - a - 1
                case.check(len(items) == max(n, 0), what + ': number of items',
                    got=len(items), want=n)
        except Enough:
            pass
        it.close()
        if op == 'frames':
            for which, models in (('particles', parts), ('tracers', tracers)):
                frames = gen.frames_of(models)
                for t, frm in enumerate(items, a):
                    match.same_snapshot(case, getattr(frm, which),
                        frames.get(t, []), t, what + ', ' + which, 0, 0)
        else:
            for which, models in (('particles', parts), ('tracers', tracers)):
                pairs = [(getattr(f, which), getattr(n, which)) for f, n in items]
                check_segments(case, iter(pairs), models, (a, b),
                    what + ', ' + which, most=len(items) or None) \
                    if items else None
        if sub == -1 and other:
            nontriv = True
        other = other or sub != -1
        ops.append((op, sub if sub == -1 else rng, stop))
        for sc in (dual.get_particles(), dual.get_tracers()):
            case.check(tuple(sc.frame_range()) == bounds(default), what + ': the range was not restored',
                got=sc.frame_range(), want=default)
    case.note(default=default, history=ops)
    case.count('operations', len(ops))
    if nontriv:
        case.nontrivial(default, ops, [m.props for m in parts])
