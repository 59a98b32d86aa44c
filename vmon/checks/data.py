"""Particle sets, snapshots, collection of particles in a frame."""
import copy, os, pickle
import numpy as np

from .. import gen, match
from ..core import Property

R10 = Property('R10',
    'Random trajectory sets, mat files and trajAcc directories, with particles '
    'at the same position, and random frames with and without matching in the '
    'next frame; the collected rows are compared with a brute-force selection. '
    'Non-trivial: two or more rows came out.',
    ['the trajAcc file of the frame exists',
     'which of several particles at one position is kept is free'])
R11 = Property('R11',
    'Random trajectory sets (holes, integer or float times, coinciding '
    'particles) and random frames; selections and snapshots are compared with '
    'brute force. Non-trivial: two or more trajectories were in the frame.',
    ['which of several particles at one position is kept is free'])
R12 = Property('R12',
    'Random histories of operations (creating, replacing, reading and setting '
    'properties, wholly or with any kind of selector) on several trajectories '
    'and snapshots at once, against a dictionary model. Non-trivial: a history '
    'with at least one selective set and one later read.',
    ['property names are identifiers other than method names'])


def coincide(case, models, near=True):
    """
    Makes some particles share a position, or only one or two coordinates, with
    another in the same frame. Or (``near``), nearly so.
    """
    frames = gen.frames_of(models)
    n = 0
    frames = [rows for _, rows in frames.items() for _ in range(1 + len(rows)//40)]
    for rows in frames:
        if len(rows) > 1 and case.chance(.4):
            (a, i), (b, j) = [rows[k] for k in case.rng.permutation(len(rows))[:2]]
            part = case.pick([slice(None), slice(None), [0], [1], [2], [0, 1],
                [1, 2], [0, 2]])
            b.props['pos'][j, part] = a.props['pos'][i, part]
            if near and case.chance(.3):
                c = case.integer(0, 2)
                x = b.props['pos'][j, c]
                b.props['pos'][j, c] = case.pick([np.nextafter(x, 1), x + 1e-12,
                    x + 1e-9, x - 1e-8, x + 1e-6])
            n += 1
    return n


def table8(m, i):
    return np.hstack((m.props['pos'][i], m.props['velocity'][i],
        m.props['time'][i], m.trajid), dtype=float)


def check_unique_rows(case, got, cands, what):
    """
    got - (n,c) table. cands - list of rows. One of each position, each of them a
    candidate.
    """
    got = np.asarray(got)
    keys = [tuple(r[:3]) for r in got]
    want = set(tuple(r[:3]) for r in cands)
    case.check(len(set(keys)) == len(keys), what + ': a position appears twice')
    case.check(set(keys) == want, what + ': positions', got=len(keys),
        want=len(want))
    left = set(tuple(r) for r in cands)
    for r in got:
        case.check(tuple(r) in left, what + ': a row which is not in the data',
            row=r)
    case.count('rows compared', len(got))


@R10.scenario(quick=300, thorough=8000)
def generic(case):
    from flowtracks import io
    models = gen.traj_models(case,
        types=gen.types(case), n=case.integer(1, 9), holes=case.chance(.4),
        span=6, extra={}, float_time=case.chance(.5), first=case.pick([0, 30, -3]))
    coincide(case, models)
    trajs = [gen.real_traj(m) for m in models]
    case.watch(trajs)
    times = gen.frames_of(models)
    f = case.integer(min(times) - 1, max(times) + 1)
    seg = case.chance(.5)
    gaps = [t for m in models for t in m.time()[:-1][np.diff(m.time()) > 1]]
    if gaps and case.chance(.5): # Right before a hole
        f = int(case.pick(gaps))
    got = io.collect_particles_generic(trajs, f, path_seg=seg) if seg or \
        case.chance(.5) else io.collect_particles_generic(trajs, f)
    cands, nxt = [], []
    for m, i in times.get(f, []):
        if seg:
            if i + 1 >= len(m) or m.time()[i + 1] != f + 1:
                continue
            nxt.append(table8(m, i + 1))
        cands.append(table8(m, i))
    case.note(frame=f, segments=seg, candidates=len(cands))
    check_collected(case, got, cands, nxt, seg, 8, 'collect_particles_generic')
    if len(cands) > 1:
        case.nontrivial(f, seg, np.array(cands))


def check_collected(case, got, cands, nxt, seg, ncols, what):
    got = np.asarray(got)
    if not seg:
        case.check(got.ndim == 2 and got.shape[1] == ncols, what + ': shape',
            shape=got.shape)
        check_unique_rows(case, got, cands, what)
        return
    case.check(got.ndim == 3 and got.shape[0] == 2 and got.shape[2] == ncols,
        what + ': shape of segments', shape=got.shape)
    check_unique_rows(case, got[0], cands, what)
    pairs = set((tuple(a), tuple(b)) for a, b in zip(cands, nxt))
    for a, b in zip(got[0], got[1]):
        case.check((tuple(a), tuple(b)) in pairs, what + ': a row does not match '
            'its next', row=a, next=b)


@R10.scenario(quick=200, thorough=5000)
def acc_files(case):
    from flowtracks import io
    d = case.tmp()
    tmpl = os.path.join(d, 'trajAcc.%d')
    first = case.pick([0, 8, 10001])
    n = case.integer(1, 7)
    cols = [0, 1, 2, 3, 4, 5, 33]
    tabs = {}
    same = np.round(case.rng.uniform(-.1, .1, 3), 4)
    for f in range(first, first + n):
        rows = []
        for _ in range(case.integer(1, 4)):
            tab = np.round(case.rng.uniform(-.1, .1, (case.integer(1, 8), 34)), 4)
            tab[:, 33] = np.arange(len(tab))
            if case.chance(.2):
                tab[case.integer(0, len(tab) - 1), :3] = same
            rows.append(tab)
        tabs[f] = rows
        np.savetxt(tmpl % f, np.vstack(rows), fmt='%.4f')
    gap = None
    if n > 3 and case.chance(.25): # Collection goes back to the first hole.
        gap = case.integer(first + 1, first + n - 2)
        os.remove(tmpl % gap)
    f = case.integer(first if gap is None else gap + 1, first + n - 1)
    seg = case.chance(.5)
    cands, nxt = [], []
    for g in range(f, first - 1, -1):
        if g == gap:
            break
        for tab in tabs[g]:
            age = f - g
            if len(tab) > age + (1 if seg else 0):
                cands.append(tab[age, cols])
                if seg:
                    nxt.append(tab[age + 1, cols])
    case.note(files=[first, first + n - 1], missing=gap, frame=f, segments=seg,
        candidates=len(cands))
    with gen.spelled(case, tmpl) as name:
        got = io.collect_particles(name, f, path_seg=seg) if seg or \
            case.chance(.5) else io.collect_particles(name, f)
    check_collected(case, got, cands, nxt, seg, 7, 'collect_particles')
    if len(cands) > 1:
        case.nontrivial(f, seg, np.array(cands))


@R10.scenario(quick=60, thorough=1000)
def mat_file(case):
    from flowtracks import io
    from .io_read import write_mat
    models = gen.traj_models(case, n=case.integer(1, 6), span=5,
        types=(gen.types(case)[0], float), extra={'accel': 'vec'})
    for m in models: # mm in the file, without rounding
        for k in ('pos', 'velocity'):
            m.props[k] = np.round(m.props[k]*1000)/1000.
    coincide(case, models, near=False)
    path = case.path('t.mat')
    write_mat(case, path, models)
    times = gen.frames_of(models)
    f = case.integer(min(times), max(times))
    seg = case.chance(.5)
    cands, nxt = [], []
    for m, i in times.get(f, []):
        if seg and (i + 1 >= len(m) or m.time()[i + 1] != f + 1):
            continue
        cands.append(table8(m, i))
        if seg:
            nxt.append(table8(m, i + 1))
    def rnd(rows):
        return [np.round(r, 9) + 0. for r in rows]
    with gen.spelled(case, path) as name:
        got = io.collect_particles_mat(name, f, path_seg=seg) if seg or \
            case.chance(.5) else io.collect_particles_mat(name, f)
    got = np.round(got, 9) + 0.
    case.note(frame=f, segments=seg, candidates=len(cands))
    check_collected(case, got, rnd(cands), rnd(nxt), seg, 8,
        'collect_particles_mat')
    if len(cands) > 1:
        case.nontrivial(f, seg, np.array(cands))


@R10.scenario(quick=150, thorough=4000)
def unique_rows(case):
    from flowtracks.trajectory import mark_unique_rows
    n = case.integer(0, 30)
    rows = case.rng.integers(-2, 3, (n, 3)).astype(float)
    if case.chance(.4):
        rows += case.rng.normal(size=3)*1e-3
    elif case.chance(.4):
        rows *= 10.**case.integer(-12, 0)
        rows += case.pick([0., 1.])
    rows = np.hstack((rows, case.rng.normal(size=(n, case.integer(0, 5)))))
    case.watch(rows)
    got = np.asarray(mark_unique_rows(rows))
    case.note(rows=n, unique=len(got))
    sel = np.arange(n)[got]
    case.check(len(set(sel.tolist())) == len(sel), 'an index appears twice')
    check_unique_rows(case, rows[got], list(rows), 'mark_unique_rows')
    if 1 < len(sel) < n:
        case.nontrivial(rows)


# ----------------------------------------------------------------- snapshots

def in_frame(models, f, seg):
    out = []
    for ix, m in enumerate(models):
        times = set(m.time().tolist())
        if f in times and (not seg or f + 1 in times):
            out.append(ix)
    return out


@R11.scenario(quick=400, thorough=10000)
def selection(case):
    from flowtracks.trajectory import trajectories_in_frame, take_snapshot
    models = gen.traj_models(case,
        types=gen.types(case), n=case.integer(0, 10) or 1, span=6,
        holes=case.chance(.4), float_time=case.chance(.4),
        first=case.pick([0, 30, 250, -3]))
    if case.chance(.4) or case.big:
        coincide(case, models)
    if case.chance(.3):
        gen.mixed_types(case, models)
    trajs = [gen.real_traj(m) for m in models]
    case.watch(trajs)
    times = gen.frames_of(models)
    f = case.integer(min(times) - 1, max(times) + 1)
    seg = case.chance(.5)
    kwds = {}
    if case.chance(.5):
        kwds = dict(start_times=np.array([m.time()[0] for m in models]),
            end_times=np.array([m.time()[-1] for m in models]))
        if case.chance(.2):
            del kwds[case.pick(sorted(kwds))]
    if seg or case.chance(.5):
        kwds['segs'] = seg
    got = np.asarray(trajectories_in_frame(trajs, f, **kwds))
    ixs = got.tolist()
    cands = in_frame(models, f, seg)
    case.note(frame=f, segments=seg, in_frame=len(cands), kept=len(ixs))
    case.check(len(set(ixs)) == len(ixs) and set(ixs) <= set(cands),
        'trajectories that are not in the frame', got=ixs, want=cands)
    def place(ix):
        m = models[ix]
        return tuple(m.props['pos'][m.time() == f][0])
    case.check(len(set(map(place, ixs))) == len(ixs), 'two of the selected are at '
        'the same position', got=ixs)
    case.check(set(map(place, ixs)) == set(map(place, cands)),
        'a trajectory in the frame was not selected', got=ixs, want=cands)

    sel = [trajs[i] for i in ixs]
    snap = take_snapshot(sel, f, trajs[0].schema())
    want = [(models[i], int(np.nonzero(models[i].time() == f)[0][0]))
        for i in ixs]
    names = set(models[0].props) - {'time'}
    if len(ixs) == 0:
        case.check(len(snap) == 0 and snap.time() == f, 'empty snapshot',
            length=len(snap))
        for n in names:
            case.check(getattr(snap, n)().shape ==
                (0,) + models[0].props[n].shape[1:],
                'empty snapshot: shape of ' + n, got=getattr(snap, n)().shape)
        case.check(len(snap.trajid()) == 0, 'empty snapshot: ids')
    else:
        match.same_snapshot(case, snap, want, f, 'take_snapshot', 0, 0)
        for n in names:
            kinds = set(models[i].props[n].dtype for i in ixs)
            case.check(len(kinds) > 1 or getattr(snap, n)().dtype.newbyteorder(
                '=') == kinds.pop(), 'snapshot: type of ' + n)
    if len(cands) > 1:
        case.nontrivial(f, seg, [m.props for m in models])


@R11.scenario(quick=12, thorough=300)
def crowds(case):
    """Frames of many particles, some of them at the place of others."""
    case.big = case.integer(20, 90)
    selection(case)


@R10.scenario(quick=8, thorough=200)
def crowds(case):
    """Frames of many particles, some of them at the place of others."""
    case.big = case.integer(20, 90)
    generic(case)


@R11.scenario(quick=60, thorough=1000)
def frame_data(case):
    """Two consecutive frames, as configured in a file."""
    from flowtracks import io
    sets, paths = [], []
    f = case.pick([3, 10003])
    lines = []
    for which in ['tracer_file', 'part_file']:
        models = gen.traj_models(case,
            types=gen.types(case), n=case.integer(2, 8), first=f - 3, span=8,
            min_len=2)
        m = models[0]
        if case.chance(.8) and len(m) < 5: # Somebody has to be there.
            models = gen.traj_models(case, n=case.integer(2, 8), first=f - 3,
                span=8, min_len=7)
        if case.chance(.05): # Nobody is.
            for x in models:
                x.props['time'] = x.props['time'] + 100
        if case.chance(.5):
            path = case.path('p.h5')
            gen.write_particles(path, models, case=case)
        else:
            path = case.tmp() + '/'
            io.save_trajectories(path, [gen.real_traj(x) for x in models], {})
        sets.append(models)
        lines.append('%s = %s' % (which, path))
    diam, dens, frate = case.rng.uniform(.1, 9, 3).tolist()
    conf = case.path('frame.cfg')
    with open(conf, 'w') as out:
        out.write('[Particle]\ndiameter = %r\ndensity = %r\n[Scene]\nframe = %d\n'
            'frame rate = %r\n' % (diam, dens, f, frate) + '\n'.join(lines) + '\n')
    part, got_rate, frame, nxt = io.read_frame_data(conf)
    case.equal([part.diam, part.density, got_rate], [diam, dens, frate],
        'frame data: scalars')
    case.close(part.mass(), dens*np.pi*diam**3/6, 'mass of a particle')
    n = 0
    for models, a, b in zip(sets, (frame.tracers, frame.particles),
            (nxt.tracers, nxt.particles)):
        cands = [models[i] for i in in_frame(models, f, True)]
        def rows(t):
            return [(m, int(np.nonzero(m.time() == t)[0][0])) for m in cands]
        match.same_snapshot(case, a, rows(f), f, 'frame data', 0, 0)
        match.same_snapshot(case, b, rows(f + 1), f + 1, 'frame data, next', 0, 0)
        case.equal(a.trajid(), b.trajid(), 'frame data: order in both frames')
        n += len(cands)
    case.note(frame=f, particles=n)
    if n > 2:
        case.nontrivial(f, [m.props for s in sets for m in s])


# ------------------------------------------------------------- particle sets

def selectors(case, n):
    kind = case.integer(0, 4)
    if kind == 0:
        return case.integer(-n, n - 1)
    if kind == 1:
        a, b = sorted([case.integer(0, n), case.integer(0, n)])
        return slice(a, b, case.pick([None, 1, 2]))
    if kind == 2:
        return case.rng.random(n) < .5
    if kind == 3:
        return case.rng.permutation(n)[:case.integer(0, n)]
    return slice(None)


class SetModel(object):
    def __init__(self, obj, props, scalar):
        self.obj, self.props, self.scalar = obj, props, scalar


def make_set(case):
    from flowtracks.trajectory import Trajectory, ParticleSnapshot
    n = case.integer(1, 8)
    extra = gen.extra_schema(case)
    props = {'pos': case.rng.normal(size=(n, 3)),
        'velocity': case.rng.normal(size=(n, 3))}
    for k, kind in extra.items():
        props[k] = gen.prop_values(case, kind, n)
    kwds = dict((k, v.copy()) for k, v in props.items())
    if case.chance(.5):
        props['time'] = np.arange(n) + case.integer(0, 50)
        trid = case.integer(0, 10**6)
        obj = Trajectory(time=props['time'].copy(), trajid=trid, **kwds)
        return SetModel(obj, props, ('trajid', trid))
    props['trajid'] = case.rng.permutation(50)[:n]
    t = case.integer(0, 10**5)
    obj = ParticleSnapshot(time=t, trajid=props['trajid'].copy(), **kwds)
    return SetModel(obj, props, ('time', t))


def check_set(case, m, what):
    o = m.obj
    case.check(len(o) == len(m.props['pos']), what + ': length')
    case.check(getattr(o, m.scalar[0])() == m.scalar[1], what + ': '
        + m.scalar[0], got=getattr(o, m.scalar[0])(), want=m.scalar[1])
    d = o.as_dict()
    case.check(set(d) == set(m.props), what + ': names in the dictionary',
        got=sorted(d), want=sorted(m.props))
    case.check(o.schema() == dict((k, v.shape[1:]) for k, v in m.props.items()),
        what + ': schema', got=o.schema())
    ext = o.ext_schema()
    case.check(set(ext) == set(m.props), what + ': names in the extended schema')
    for k, v in m.props.items():
        case.equal(d[k], v, what + ': dictionary, ' + k)
        case.equal(getattr(o, k)(), v, what + ': property ' + k)
        case.check(o.has_property(k), what + ': has no property ' + k)
        t, ln = ext[k]
        case.check(np.dtype(t) == v.dtype and ln == (v.shape[-1] if v.ndim > 1
            else 1), what + ': extended schema of ' + k, got=(str(t), ln))
    case.check(not o.has_property('no_such_thing'), what + ': has everything')


@R12.scenario(quick=400, thorough=10000)
def histories(case):
    sets = [make_set(case) for _ in range(case.integer(1, 3))]
    ops, given = [], []
    sel_sets = reads = copies = 0
    for m in sets:
        check_set(case, m, 'at creation')
    for step in range(case.integer(4, 25)):
        which = case.integer(0, len(sets) - 1)
        m = sets[which]
        o, n = m.obj, len(m.props['pos'])
        op = case.pick(['create', 'get', 'get', 'set', 'set', 'set_all', 'item',
            'has', 'given'] + ['copy']*(len(sets) < 6))
        name = case.pick(sorted(m.props))
        if op == 'create':
            if case.chance(.7):
                name = case.pick(['added', 'more', 'temper', 'label', 'x_2',
                    'id', 't', 'trid', 'n'])
            kind = case.pick(gen.PROP_KINDS)
            if name in ('pos', 'velocity'):
                kind = 'vec'
            elif name in ('time', 'trajid'):
                kind = 'int'
            val = gen.prop_values(case, kind, n)
            o.create_property(name, val.copy())
            m.props[name] = val
        elif op == 'get':
            sel = selectors(case, n)
            case.equal(getattr(o, name)(sel), m.props[name][sel],
                'step %d: %s of a selection' % (step, name))
            reads += sel_sets > 0
        elif op == 'set':
            sel = selectors(case, n)
            new = case.rng.integers(0, 99, m.props[name][sel].shape)
            getattr(o, 'set_' + name)(new, sel)
            m.props[name] = m.props[name].copy()
            m.props[name][sel] = new
            sel_sets += 1
        elif op == 'set_all':
            if case.chance(.5) and name not in ('pos', 'velocity', 'time',
                    'trajid'): # May be of another type and shape
                new = gen.prop_values(case, case.pick(gen.PROP_KINDS), n)
            else:
                new = case.rng.integers(0, 99, m.props[name].shape).astype(
                    m.props[name].dtype)
            getattr(o, 'set_' + name)(new.copy())
            m.props[name] = new
        elif op == 'copy': # Another object, also where the arrays are the same
            how = case.pick(['shallow', 'deep', 'pickle'])
            if how == 'pickle':
                new = pickle.loads(pickle.dumps(o, case.integer(2, 5)))
            else:
                new = getattr(copy, dict(shallow='copy', deep='deepcopy')[how])(o)
            case.check(type(new) is type(o), 'step %d: type of a %s copy' % (step,
                how))
            new = SetModel(new, dict(m.props), m.scalar)
            check_set(case, new, 'step %d: %s copy' % (step, how))
            if how == 'shallow': # Who sees what is set in place later is free
                for k, v in new.props.items():
                    new.props[k] = v.copy()
                    getattr(new.obj, 'set_' + k)(v.copy())
            sets.append(new)
            copies += 1
        elif op == 'given': # What the set tells of itself belongs to the caller
            d, s, e = o.as_dict(), o.schema(), o.ext_schema()
            given.append((d, dict(m.props), 'step %d' % step))
            s['no_such_thing'] = e['no_such_thing'] = ()
            s.pop(name), e.pop(name)
            if case.chance(.5):
                d = o.as_dict()
                d['no_such_thing'] = d.pop(name)
            check_set(case, m, 'step %d: after changes to its dictionaries' % step)
        elif op == 'item' and m.scalar[0] == 'trajid':
            sel = selectors(case, n)
            got = o[sel]
            p, v, t = (m.props[k][sel] for k in ('pos', 'velocity', 'time'))
            want = np.concatenate((p, v, np.asarray(t, float)[..., None],
                np.full(np.shape(t) + (1,), float(m.scalar[1]))), axis=-1)
            case.equal(got, want, 'step %d: table of a selection' % step)
        elif op == 'has':
            for k in ['added', 'more', 'temper', 'nothing']:
                case.check(o.has_property(k) == (k in m.props),
                    'step %d: has_property(%s)' % (step, k))
        ops.append((which, op, name))
        if step % 5 == 0:
            for j, other in enumerate(sets):
                check_set(case, other, 'step %d (%s %s of set %d), set %d' % (
                    step, op, name, which, j))
    for d, props, when in given: # Names, as values may have been set in place
        case.check(set(d) == set(props) and all(np.shape(d[k]) == v.shape for k, v
            in props.items()), 'dictionary of %s changed' % when, got=sorted(d))
    for m in sets:
        check_set(case, m, 'at the end')
        reads += sel_sets > 0
    case.count('operations', len(ops))
    case.count('copies', copies)
    case.note(sets=len(sets), history=ops[:10])
    if sel_sets and reads:
        case.nontrivial(ops, [m.props for m in sets])
