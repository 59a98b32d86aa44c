"""Saving and loading: HDF5 particle tables, HDF5 from frames, npz directories."""
import os, shutil
import numpy as np

from .. import gen, match, monitors
from ..core import Property
from .io_read import compare

R07 = Property('R07',
    'Random trajectory sets (any ids, starts, lengths, extra float, integer, '
    'scalar and vector properties, optional trimming) are saved as an HDF5 '
    'particles table; a copy of the closed file is read by PyTables alone and by '
    'every reader of the library and compared with the set. Non-trivial: two or '
    'more trajectories were saved.',
    ['at least one trajectory is longer than what is trimmed',
     'all trajectories of a set have the same properties'])
R08 = Property('R08',
    'Random sequences of frames (rows in any order, empty frames, trajectories '
    'with holes) are saved as HDF5 from frames; a copy of the closed file is read '
    'by PyTables alone and by every reader of the library and compared. '
    'Non-trivial: two or more non-empty frames and trajectories.',
    ['frames come in time order'])
R09 = Property('R09',
    'Random trajectory sets with per-trajectory additions and free arrays are '
    'saved in npz form and loaded, whole or by a frame range, with the directory '
    'listed in random order. Non-trivial: two or more trajectories came back.',
    ['the output directory has no other trajectories'])


def closed_copy(case, path):
    """The file as another process would see it: it must be closed by now."""
    case.check(monitors.open_files_under(path + '/..') == [] or
        os.path.realpath(path) not in monitors.open_files_under(
            os.path.dirname(path)), 'the file was left open', path=path)
    new = case.path('copy.h5')
    shutil.copyfile(path, new)
    return new


def raw_table(path, node):
    import tables
    f = tables.open_file(path, 'r')
    arr = f.get_node(node).read()
    cols = f.get_node(node).colindexed
    f.close()
    return arr, cols


def check_raw(case, path, models, what):
    """The tables themselves, as any HDF5 program sees them."""
    arr, indexed = raw_table(path, '/particles')
    case.check(len(arr) == sum(map(len, models)), what + ': number of rows',
        got=len(arr), want=sum(map(len, models)))
    case.check(set(arr.dtype.names) == set(models[0].props) | {'trajid'},
        what + ': columns', got=arr.dtype.names)
    case.check(indexed['trajid'] and indexed['time'],
        what + ': no index of ids or times')
    for m in models:
        sub = arr[arr['trajid'] == m.trajid]
        sub = sub[np.argsort(sub['time'], kind='stable')]
        case.check(len(sub) == len(m), what + ': rows of trajectory %d' %
            m.trajid, got=len(sub), want=len(m))
        for name, v in m.props.items():
            kind = v.dtype.kind.replace('u', 'i')
            case.check(sub[name].dtype.kind.replace('u', 'i') == kind and
                sub[name].dtype.itemsize >= v.dtype.itemsize,
                what + ': type of column ' + name, got=sub[name].dtype,
                want=v.dtype)
            case.equal(sub[name], v, '%s: column %s of trajectory %d' % (
                what, name, m.trajid))
    b, indexed = raw_table(path, '/bounds')
    got = sorted(map(tuple, b[['trajid', 'first', 'last']].tolist()))
    want = sorted((m.trajid, int(m.time()[0]), int(m.time()[-1]))
        for m in models)
    case.check(got == want, what + ': table of trajectory bounds', got=got,
        want=want)


def check_readers(case, path, models, what):
    """Every way of reading the file back."""
    from flowtracks import io
    from flowtracks.scene import Scene
    same = dict(rtol=0, atol=0)
    got = [t for t in io.trajectories_table(path) if len(t)]
    match.same_traj_set(case, got, models, what + ', trajectories_table', **same)
    times = np.concatenate([m.time() for m in models])
    first = case.integer(int(times.min()), int(times.max()))
    last = case.integer(first, int(times.max()))
    a, b = case.pick([(first, last), (first, last), (None, last), (first, None)])
    got = [t for t in io.trajectories_table(path, a, b) if len(t)]
    want = [m.rows((m.time() >= (times.min() if a is None else a))
        & (m.time() <= (times.max() if b is None else b))) for m in models]
    match.same_traj_set(case, got, [m for m in want if len(m)],
        what + ', trajectories_table of [%s, %s]' % (a, b), **same)
    got = io.trajectories(path, None, None, 1., 'hdf', traj_min_len=1)
    match.same_traj_set(case, got, models, what + ', trajectories', **same)

    scene = Scene(path)
    match.same_traj_set(case, list(scene.iter_trajectories()), models,
        what + ', Scene trajectories', **same)
    frames = gen.frames_of(models)
    seen = 0
    for snap in scene.iter_frames():
        t = int(snap.time())
        match.same_snapshot(case, snap, frames.get(t, []), t,
            what + ', Scene frames', **same)
        seen += len(snap)
    case.check(seen == sum(map(len, models)), what + ': particles in all frames',
        got=seen, want=sum(map(len, models)))
    tags = np.asarray(scene.trajectory_tags())
    want = sorted([m.trajid, int(m.time()[0]), int(m.time()[-1])] for m in models)
    case.check(sorted(tags.tolist()) == want, what + ': trajectory tags',
        got=tags, want=want)
    lo, hi = scene.bounding_box()
    pos = np.vstack([m.props['pos'] for m in models])
    case.equal(lo, pos.min(axis=0), what + ': bounding box, low end')
    case.equal(hi, pos.max(axis=0), what + ': bounding box, high end')


def describe(models):
    return dict(trajectories=[(m.trajid, len(m), int(m.time()[0])) for m in
        models], properties=dict((k, str(v.dtype) + str(v.shape[1:]))
        for k, v in models[0].props.items()))


def random_set(case, **kwds):
    return gen.traj_models(case,
        types=gen.types(case), first=case.pick([0, 0, 5, 10001, -3]),
        span=gen.some_frames(case, 3, 12), holes=case.chance(.3),
        float_time=case.chance(.3), **kwds)


@R07.scenario(quick=110, thorough=2200)
def save_and_read(case):
    from flowtracks import io
    models = random_set(case, n=case.integer(1, 8))
    trim = case.pick([None, None, 0, 1, 2])
    kept = models
    if trim:
        kept = [m.rows(slice(trim, len(m) - trim)) for m in models
            if len(m) > 2*trim]
        if not kept: # Nothing left to save is not an interesting file.
            models.extend(gen.traj_models(case, 1, span=8, min_len=6, ids=[5000],
                extra=dict()))
            models = models[-1:]
            kept = [m.rows(slice(trim, len(m) - trim)) for m in models]
    trajs = [gen.real_traj(m) for m in models]
    case.watch(trajs)
    path = case.path('scene.h5')
    case.note(trim=trim, **describe(models))
    io.save_particles_table(path, trajs, **({} if trim is None and
        case.chance(.5) else {'trim': trim}))
    copy = closed_copy(case, path)
    what = 'particles table' + ('' if trim is None else ', trim %d' % trim)
    check_raw(case, copy, kept, what)
    check_readers(case, copy, kept, what)
    if len(kept) > 1:
        case.nontrivial(trim, [m.props for m in models])


@R07.scenario(quick=4, thorough=80)
def round_counts(case):
    """Round numbers of rows, in all or in a frame."""
    from flowtracks import io
    models = gen.counted(case, case.chance(.8), 5000)
    trajs = [gen.real_traj(m) for m in models]
    path = case.path('scene.h5')
    case.note(trajectories=len(models), rows=sum(map(len, models)))
    io.save_particles_table(path, trajs)
    copy = closed_copy(case, path)
    check_raw(case, copy, models, 'particles table')
    got = [t for t in io.trajectories_table(copy) if len(t)]
    match.same_traj_set(case, got, models, 'trajectories_table', rtol=0, atol=0)
    case.nontrivial([m.props for m in models])


@R07.scenario(quick=40, thorough=700)
def save_again(case):
    """Saving what was read gives the same file contents, over an older file."""
    from flowtracks import io
    models = random_set(case, n=case.integer(2, 6))
    path, other = case.path('a.h5'), case.path('b.h5')
    old = gen.traj_models(case, 3, extra={'old': 'vec'})
    io.save_particles_table(other, [gen.real_traj(m) for m in old])
    io.save_particles_table(path, [gen.real_traj(m) for m in models])
    io.save_particles_table(other, io.trajectories(path, None, None, 1.,
        traj_min_len=1))
    case.note(**describe(models))
    check_raw(case, closed_copy(case, other), models, 'saved again')
    case.nontrivial([m.props for m in models])


@R07.scenario(quick=60, thorough=1000)
def from_tracking(case):
    """ptv_is to HDF5: the conversion everyone starts with."""
    from flowtracks import io
    ch = gen.Chains(case, frames=case.integer(4, 12))
    tmpl = gen.write_frames(case, lambda f: ch.ptvis_text(f), list(ch.rows),
        'ptv_is.%d')
    want = ch.expected(None, None, 500.)
    if not want:
        return
    path = case.path('conv.h5')
    io.save_particles_table(path, io.iter_trajectories_ptvis(tmpl, frate=500.))
    arr, _ = raw_table(closed_copy(case, path), '/particles')
    got = []
    for trid in np.unique(arr['trajid']):
        sub = arr[arr['trajid'] == trid]
        got.append(gen.real_traj(gen.T(trid, dict((k, sub[k]) for k in
            ('time', 'pos', 'velocity', 'accel')))))
    compare(case, got, want, 'converted from ptv_is', kinematics=True)
    case.check(len(arr) == sum(len(w[0]) for w in want.values()),
        'rows after conversion')
    rows = arr['pos']
    case.note(paths=len(want), rows=len(rows))
    case.nontrivial(rows)


def snapshot(rows, t, rng, names):
    from flowtracks.trajectory import ParticleSnapshot
    rows = [rows[i] for i in rng.permutation(len(rows))]
    if t % 2: # Not all frames have their properties in the same order.
        names = names[::-1]
    kwds = dict((n, np.array([m.props[n][i] for m, i in rows])) for n in names)
    if rng.random() < .1: # From another machine
        n = names[t % len(names)]
        kwds[n] = kwds[n].astype(kwds[n].dtype.newbyteorder('>'))
    return ParticleSnapshot(time=t,
        trajid=np.array([m.trajid for m, _ in rows], dtype=np.int64), **kwds)


def empty_snapshot(models, t, names):
    from flowtracks.trajectory import ParticleSnapshot
    kwds = dict((n, np.zeros((0,) + models[0].props[n].shape[1:])) for n in names)
    return ParticleSnapshot(time=t, trajid=np.zeros(0, dtype=np.int64), **kwds)


@R08.scenario(quick=80, thorough=1600)
def frames(case):
    from flowtracks import io
    models = gen.traj_models(case,
        types=gen.types(case), n=case.integer(1, 8), holes=case.chance(.5),
        first=case.pick([0, 5, 10001, -2]), span=case.integer(3, 10))
    names = [n for n in models[0].props if n != 'time']
    by_time = gen.frames_of(models)
    snaps = []
    for t in range(min(by_time) - case.integer(0, 1), max(by_time) + 2):
        if t in by_time:
            snaps.append(snapshot(by_time[t], t, case.rng, names))
        elif case.chance(.6) and len(snaps):
            snaps.append(empty_snapshot(models, t, names))
    case.watch(snaps)
    path = case.path('frames.h5')
    case.note(frames=[(int(s.time()), len(s)) for s in snaps], **describe(models))
    io.save_frames_hdf(path, snaps if case.chance(.5) else iter(snaps))
    copy = closed_copy(case, path)
    check_raw(case, copy, models, 'frames table')
    check_readers(case, copy, models, 'frames table')
    if len(by_time) > 1 and len(models) > 1:
        case.nontrivial([m.props for m in models])


@R08.scenario(quick=4, thorough=80)
def round_counts(case):
    """Round numbers of rows, in all or in a frame."""
    from flowtracks import io
    long = case.chance(.5)
    models = gen.counted(case, long, 1025 if long else 2049)
    names = [n for n in models[0].props if n != 'time']
    by_time = gen.frames_of(models)
    path = case.path('frames.h5')
    case.note(trajectories=len(models), rows=sum(map(len, models)))
    io.save_frames_hdf(path, (snapshot(by_time[t], t, case.rng, names)
        for t in sorted(by_time)))
    copy = closed_copy(case, path)
    check_raw(case, copy, models, 'frames table')
    case.nontrivial([m.props for m in models])


@R08.scenario(quick=36, thorough=700)
def scene_to_frames(case):
    """
    Frames of one scene file, saved as another: the two scenes are the same, in
    whatever order the rows of the first are.
    """
    from flowtracks import io
    from flowtracks.scene import Scene
    models = gen.traj_models(case,
        types=gen.types(case), n=case.integer(2, 7), holes=case.chance(.3))
    path, new = case.path('a.h5'), case.path('b.h5')
    gen.write_particles(path, models, case=case,
        order=case.pick(['traj', 'frames', 'shuffled']))
    times = sorted(gen.frames_of(models))
    rng = case.pick([None, (times[0], times[-1] + 1),
        (times[0], case.integer(times[0], times[-1]) + 1)])
    scene = Scene(path, rng)
    want = models
    if rng is not None:
        want = [m.rows(m.time() < rng[1]) for m in models]
        want = [m for m in want if len(m)]
    io.save_frames_hdf(new, scene.iter_frames())
    case.note(range=rng, **describe(models))
    copy = closed_copy(case, new)
    check_raw(case, copy, want, 'scene saved again')
    check_readers(case, copy, want, 'scene saved again')
    case.nontrivial(rng, [m.props for m in models])


@R09.scenario(quick=200, thorough=5000)
def npz(case):
    from flowtracks import io
    models = random_set(case, n=case.integer(1, 8))
    if case.chance(.2): # Ids are whole numbers, some programs mark with the sign
        for m in models:
            if case.chance(.5):
                m.trajid = -m.trajid
    trajs = [gen.real_traj(m) for m in models]
    adds = {}
    for name in ['recon', 'extra_1', 'note'][:case.integer(0, 3)]:
        adds[name] = dict((m.trajid, case.rng.normal(
            size=(case.integer(0, 5), case.integer(1, 3)))) for m in models)
    free = dict((k, case.rng.normal(size=case.integer(1, 9)))
        for k in ([['hist', 'bins'], ['traj_hist', 'traj'], ['traj_%d' %
            models[0].trajid, 'x']][case.integer(0, 2)])[:case.integer(0, 2)])
    case.watch(trajs, dict((k, dict(v)) for k, v in adds.items()), free)
    d = os.path.join(case.tmp(), *case.pick([['out'], ['a', 'b'], []]))
    if case.chance(.3): # Saved anew after an older version was read
        older = [m.copy() for m in models]
        for m in older:
            m.props['pos'] = m.props['pos'] + 1
        io.save_trajectories(d, [gen.real_traj(m) for m in older], {})
        match.same_traj_set(case, io.load_trajectories(d)[0], older,
            'older version', rtol=0, atol=0)
    if case.chance(.3): # In parts, of which some have more additions.
        for m, tr in zip(models, trajs):
            some = dict((k, {m.trajid: v[m.trajid]}) for k, v in adds.items()
                if case.chance(.7))
            for k in adds:
                if k not in some:
                    del adds[k][m.trajid]
            io.save_trajectories(d, [tr], some)
        io.save_trajectories(d, [], {}, **free)
    else:
        io.save_trajectories(d, trajs, adds, **free)
    if case.chance(.3): # Other files there
        with open(os.path.join(d, case.pick(['README', 'traj_1.txt', 'npz',
                'traj_2.npz.bak'])), 'w') as f:
            f.write('not a trajectory\n')
    times = np.concatenate([m.time() for m in models])
    first = case.pick([None, int(times.min()), case.integer(int(times.min()),
        int(times.max()))])
    last = case.pick([None, int(times.max()), case.integer(
        int(times.min()) if first is None else first, int(times.max()))])
    case.note(range=[first, last], adds=sorted(adds), free=sorted(free),
        **describe(models))
    with gen.spelled(case, d) as name:
        got, got_adds = io.load_trajectories(name, first, last)
    want = models
    if first is not None:
        want = [m.rows(m.time() >= first) for m in want]
    if last is not None:
        want = [m.rows(m.time() <= last) for m in want]
    want = [m for m in want if len(m)]
    match.same_traj_set(case, got, want, 'npz', rtol=0, atol=0)
    for tr in got:
        for k, v in match.props_of(tr).items():
            case.check(v.dtype.newbyteorder('=') == models[0].props[k].dtype,
                'npz: type of ' + k,
                got=v.dtype, want=models[0].props[k].dtype)
    case.check(set(k for k in got_adds if got_adds[k]) ==
        set(k for k in adds if adds[k]), 'npz: names of additions',
        got=sorted(got_adds), want=sorted(adds))
    for name in adds:
        for trid in got_adds.get(name, {}):
            case.check(trid in adds[name], 'npz: an addition of another '
                'trajectory', name=name, trajid=trid)
        for m in want:
            if m.trajid not in adds[name]:
                continue
            case.check(m.trajid in got_adds[name], 'npz: addition %s of '
                'trajectory %d is missing' % (name, m.trajid))
            case.equal(got_adds[name][m.trajid], adds[name][m.trajid],
                'npz: addition %s of trajectory %d' % (name, m.trajid))
    for name in free:
        case.equal(np.load(os.path.join(d, name + '.npy')), free[name],
            'npz: free array ' + name)
    if len(want) > 1:
        case.nontrivial(first, last, [m.props for m in models])
