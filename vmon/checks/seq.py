"""Sequences: segment iteration, selectors, per-trajectory mapping, pairs."""
import contextlib
import numpy as np

from .. import core, gen, match
from ..core import Property
from . import io_read

PRE = ['particles of one frame are at distinct positions']

R30 = Property('R30',
    'Random pairs of data sets in several formats and random histories of '
    'iterations over a sequence (whole, partial, of subranges, abandoned), with '
    'changes of selectors between them; each pair of frames is compared with the '
    'data. Non-trivial: two or more iterations, and some frame with two or more '
    'particles.', PRE)
R31 = Property('R31',
    'Random sequences mapped with random functions, with and without subrange, '
    'history and extra arguments; the time series are compared with direct '
    'computation. Non-trivial: two or more trajectories with two or more '
    'results.', PRE + ['the function gives a result for each particle of the '
    'frame'])
R32 = Property('R32',
    'Random primary and secondary trajectories (with holes) and random points '
    'to pair; pairs are compared with brute force. Non-trivial: two or more '
    'different pairs were found.', PRE + ['candidates are the secondary '
    'trajectories which continue to the next frame',
    'no two candidates are equally near'])


def corrected(t):
    """Others with the same number, as of a calibration."""
    if isinstance(t, ById):
        m = t.m.copy()
        m.props['pos'] = m.props['pos'] + .5
        return ById(m)
    from flowtracks.trajectory import Trajectory
    props = match.props_of(t)
    props['pos'] = props['pos'] + .5
    return Trajectory(trajid=t.trajid(), **props)


SELECTORS = {
    'all': lambda ts: ts,
    'even': lambda ts: [t for t in ts if t.trajid() % 2 == 0],
    'long': lambda ts: [t for t in ts if len(t.time()) > 3],
    'half': lambda ts: sorted(ts, key=lambda t: t.trajid())[::2],
    'reversed': lambda ts: list(ts)[::-1],
    'others': lambda ts: [t for t in ts if t.trajid() != 88888],
    'none': lambda ts: [],
    'corrected': lambda ts: [corrected(t) for t in ts],
    'some corrected': lambda ts: [corrected(t) if t.trajid() % 3 else t for t in
        ts if t.trajid() != 88888],
    'shortest': lambda ts: ts and [min(ts, key=lambda t: (len(t.time()), t.trajid()))],
}


class ById(object):
    """What the selectors need, of a model."""
    def __init__(self, m):
        self.m = m

    def trajid(self):
        return self.m.trajid

    def time(self):
        return self.m.time()


def select(selector, models):
    return [x.m for x in selector([ById(m) for m in models])]


def recorded(case, lo, span, rng, min_len):
    """
    Files of a tracking program. Returns their template and models of the 
    trajectories as the reader numbers them, after comparing these with what was 
    written; or None if there is none of 3 points.
    """
    from flowtracks.io import trajectories
    fmt = case.pick(['ptvis', 'xuap', 'acc', 'mat'])
    least = min_len or 0
    if fmt == 'mat':
        models = gen.traj_models(case, types=(np.int64, float), n=case.integer(1, 7),
            first=lo, span=span, extra={'accel': 'vec'})
        path = case.path('run.mat')
        io_read.write_mat(case, path, models)
        got = trajectories(path, rng[0], rng[1], 500., None, least)
        match.same_traj_set(case, got, [m for m in models if len(m) >= least],
            'mat', rtol=1e-9)
    elif fmt == 'acc':
        path, tabs = io_read.acc_dir(case, lo, span)
        got = trajectories(path, rng[0], rng[1], 500., None, least)
        io_read.compare(case, got, io_read.acc_want(tabs, rng[0], rng[1], least),
            'trajAcc', kinematics=True)
    else:
        ch = gen.Chains(case, frames=span + 1, first=lo, distinct=True,
            size=.1 if fmt == 'xuap' else 100.)
        text = ch.ptvis_text if fmt == 'ptvis' else \
            lambda f: ch.xuap_text(f, case)
        path = gen.write_frames(case, text, list(ch.rows), {'ptvis': 'ptv_is.%d',
            'xuap': 'xuap.%d'}[fmt])
        got = trajectories(path, rng[0], rng[1], 500., None, least)
        io_read.compare(case, got, ch.expected(rng[0], rng[1], 500., least,
            fmt == 'xuap'), fmt, kinematics=True)
    case.count('read from ' + fmt)
    models = []
    for t in got:
        props = dict((k, np.array(v)) for k, v in match.props_of(t).items())
        models.append(gen.T(int(t.trajid()), props, {'accel': 'vec'}))
    return (path, models) if any(len(m) > 2 for m in models) else None


def make(case, holes=True, smooth=False, all_lengths=False, empty=False):
    """A sequence, and models of what it reads, which may be nothing if empty."""
    from flowtracks.sequence import Sequence
    from flowtracks.particle import Particle
    lo = case.pick([0, 1, 9, 10001, -2])
    span = gen.some_frames(case, 3, 10)
    rng = (lo + case.integer(0, 1), lo + span - case.integer(0, 1))
    min_len = case.pick([None, 0, 1, 2, 3])
    if min_len == 3 and min(rng[1], lo + span - 1) - rng[0] < 2:
        min_len = 2
    empty = empty and case.chance(.08)
    if empty:
        min_len = 50
    paths, sets = [], []
    for _ in range(2):
        found = None if empty or lo < 0 or case.chance(.6) else \
            recorded(case, lo, span, rng, 0 if all_lengths else min_len)
        if found is not None:
            paths.append(found[0])
            sets.append(found[1])
            continue
        types = gen.types(case)
        models = gen.traj_models(case,
            types=types, n=case.integer(1, 7), first=lo, span=span,
            holes=holes and case.chance(.3))
        models += gen.traj_models(case,
            types=types, n=1, first=lo, span=span, min_len=span,
            ids=[88888], extra=models[0].kinds)
        paths.append(io_read.save_as(case, case.pick(['npz', 'hdf']), models))
        sets.append(io_read.in_range(models, rng[0], rng[1], 0 if all_lengths
            else min_len or 0))
    kwds = {} if min_len is None else {'traj_min_len': min_len}
    if smooth:
        kwds['smooth_tracers'] = True
    seq = Sequence(rng, 500., Particle(5e-4, 1450.), paths[0], paths[1], **kwds)
    case.note(range=rng, min_len=min_len, formats=[p[-4:] for p in paths],
        particles=len(sets[0]), tracers=len(sets[1]))
    return seq, rng, sets, paths


@contextlib.contextmanager
def smoothing(calls):
    """
    A stand-in for Trajectory.smoothed, which sequences call without its arguments
    (a known finding). It moves the positions, so that one sees what is smoothed.
    """
    from flowtracks.trajectory import Trajectory
    original = Trajectory.smoothed
    def smoothed(self, *args, **kwds):
        calls.append(int(self.trajid()))
        props = match.props_of(self)
        props['pos'] = props['pos'] + 1.
        return Trajectory(trajid=self.trajid(), **props)
    Trajectory.smoothed = smoothed
    try:
        yield
    finally:
        Trajectory.smoothed = original


def moved(models):
    """As the stand-in leaves them."""
    out = [m.copy() for m in models]
    for m in out:
        m.props['pos'] = m.props['pos'] + 1.
    return out


def check_pairs(case, it, sets, first, last, what, most=None):
    """Returns the largest number of particles in a pair of frames."""
    t, big = first, 0
    for item in it:
        case.check(len(item) == 2, what + ': items are not pairs')
        case.check(t < last, what + ': a frame after the range', at=t)
        for name, models in zip(('particles', 'tracers'), sets):
            frames = gen.frames_of(models)
            now = frames.get(t, [])
            then = dict((m.trajid, (m, i)) for m, i in frames.get(t + 1, []))
            now = [(m, i) for m, i in now if m.trajid in then]
            a, b = getattr(item[0], name), getattr(item[1], name)
            match.same_snapshot(case, a, now, t, what + ', ' + name)
            match.same_snapshot(case, b, [then[m.trajid] for m, _ in now], t + 1,
                what + ', next ' + name)
            case.equal(np.asarray(a.trajid()), np.asarray(b.trajid()), what
                + ': rows of the two frames')
            big = max(big, len(now))
        t += 1
        if most is not None and t - first >= most:
            return big
    case.check(t == max(first, last), what + ': frames are missing', next=t,
        last=last)
    return big


def check_subrange(case, seq, sets, rng, what):
    """The frames between which there are particles of those selected."""
    if not sets[0]:
        return
    got = seq.subrange()
    t = np.concatenate([m.time() for m in sets[0]])
    case.check(tuple(float(x) for x in got) == (max(t.min(), rng[0]),
        min(t.max(), rng[1])), what + ': frames with particles', got=got)


@R30.scenario(quick=150, thorough=3000)
def histories(case):
    seq, rng, all_sets, paths = make(case, empty=True)
    case.check(tuple(seq.range()) == rng, 'range', got=seq.range())
    case.check(seq.part_fname() == paths[0], 'particles file name')
    # One function whose selection changes with something outside it.
    boxes = set(), set()
    picked = [lambda ts, box=box: [t for t in ts if t.trajid() in box]
        for box in boxes]
    def chosen(name, which):
        return picked[which] if name == 'picked' else SELECTORS[name]
    sel = ['all', 'all']
    sets = all_sets
    ops, iterations, big = [], 0, 0
    left = None # Where the last iteration was abandoned
    for step in range(case.integer(2, 7)):
        op = case.pick(['iter', 'iter', 'sub', 'sub', 'select', 'lists',
            'subrange', 'inner'])
        if left is not None and case.chance(.5):
            op = case.pick(['select', 'sub'])
        what = 'step %d (%s, selectors %s)' % (step, op, sel)
        most = case.pick([None, None, 1, 2])
        a = case.integer(rng[0], rng[1] - 1)
        if left is not None and left < rng[1] and case.chance(.5):
            a = left
        b = case.integer(a, rng[1])
        if op == 'sub' and case.chance(.1): # Ends before it starts
            a, b = case.integer(b, rng[1]), case.integer(rng[0], a)
        if op in ('iter', 'sub', 'inner'):
            left = None if most is None or op == 'inner' else \
                (rng[0] if op == 'iter' else a) + most
        if op == 'iter':
            big = max(big, check_pairs(case, seq, sets, rng[0], rng[1], what,
                most))
            iterations += 1
        elif op == 'sub':
            big = max(big, check_pairs(case, seq.iter_subrange(a, b), sets, a, b,
                what, most))
            iterations += 1
        elif op == 'inner': # an iteration of a subrange within another
            t = rng[0]
            for frame, nxt in seq:
                match.same_snapshot(case, frame.particles, [(m, i) for m, i in
                    gen.frames_of(sets[0]).get(t, []) if t + 1 in m.time()], t,
                    what + ', outer')
                if t == a:
                    check_pairs(case, seq.iter_subrange(a, b), sets, a, b,
                        what + ', inner', most)
                t += 1
            case.check(t == rng[1], what + ': frames of the outer iteration',
                next=t)
            iterations += 1
        elif op == 'select':
            if case.chance(.4): # Asked before and after
                check_subrange(case, seq, sets, rng, what + ', before')
            which = case.integer(0, 1)
            name = case.pick(sorted(SELECTORS) + ['picked']*(4 if boxes[which]
                else 2))
            if left is not None and case.chance(.5): # The same ones, changed
                name = 'corrected' if sel[which] == 'all' else 'all'
            if name == 'picked':
                ids = [m.trajid for m in all_sets[which]]
                boxes[which].clear()
                boxes[which].update(int(i) for i in case.rng.permutation(ids)[
                    :case.integer(0, len(ids))])
            sel[which] = name
            sets = [select(chosen(s, i), ms) for i, (s, ms) in
                enumerate(zip(sel, all_sets))]
            (seq.set_particle_selector, seq.set_tracer_selector)[which](
                chosen(name, which))
            if case.chance(.4):
                check_subrange(case, seq, sets, rng, what + ', after')
        elif op == 'lists':
            match.same_traj_set(case, seq.particle_trajectories(), sets[0],
                what + ', particles')
            match.same_traj_set(case, seq.tracer_trajectories(), sets[1],
                what + ', tracers')
        elif op == 'subrange':
            check_subrange(case, seq, sets, rng, what)
        case.check(tuple(seq.range()) == rng, what + ': the range changed',
            got=seq.range())
        ops.append(op)
    case.note(history=ops, selectors=sel)
    case.count('operations', len(ops))
    if iterations > 1 and big > 1:
        case.nontrivial(ops, rng, [m.props for m in sets[0]])


@R30.scenario(quick=2, thorough=8, floor=0)
def smoothed_tracers(case):
    """The option of smoothing tracers."""
    seq, rng, sets, paths = make(case, holes=False, smooth=True)
    try:
        got = [frame.tracers for frame, _ in seq]
    except TypeError as e:
        if 'smoothed' in str(e):
            raise core.KnownFinding('smooth_tracers', str(e))
        raise
    for t, snap in enumerate(got, rng[0]):
        want = [m.trajid for m, _ in gen.frames_of(sets[1]).get(t, [])
            if t + 1 in m.time()]
        case.check(sorted(np.asarray(snap.trajid()).astype(int).tolist()) ==
            sorted(want), 'tracers in frame %d' % t)


@R30.scenario(quick=30, thorough=600)
def smoothing_applied(case):
    """With a stand-in for the smoothing of a trajectory."""
    smooth = case.chance(.8)
    seq, rng, sets, paths = make(case, smooth=smooth)
    calls, iterations = [], 0
    with smoothing(calls):
        want = [sets[0], moved(sets[1]) if smooth else sets[1]]
        big = 0
        for step in range(2):
            if case.chance(.4):
                name = case.pick(sorted(SELECTORS))
                seq.set_tracer_selector(SELECTORS[name])
                want[1] = select(SELECTORS[name], sets[1])
                if smooth:
                    want[1] = moved(want[1])
            big = max(big, check_pairs(case, seq, want, rng[0], rng[1],
                'step %d' % step))
        match.same_traj_set(case, seq.tracer_trajectories(), want[1], 'tracers')
        match.same_traj_set(case, seq.particle_trajectories(), want[0],
            'particles')
    case.check(smooth or not calls, 'tracers were smoothed')
    case.note(smooth=smooth)
    if big > 1:
        case.nontrivial(smooth, rng, [m.props for m in sets[1]])


@R31.scenario(quick=3, thorough=60)
def many_frames(case):
    """The same over long recordings."""
    case.frames = gen.round_number(case, 520)
    mapping(case)


@R30.scenario(quick=30, thorough=600)
def set_again(case):
    """Functions whose selection depends on something that changes, set again."""
    seq, rng, all_sets, paths = make(case)
    boxes = set(), set()
    picked = [lambda ts, box=box: [t for t in ts if t.trajid() in box]
        for box in boxes]
    sets = list(all_sets)
    big = changes = 0
    for step in range(case.integer(2, 4)):
        for which in (0, 1):
            if step > 0 and case.chance(.3):
                continue # The trajectories stay as they were.
            ids = [m.trajid for m in all_sets[which]]
            new = set(int(i) for i in case.rng.permutation(ids)[
                :case.integer(len(ids) // 2, len(ids))])
            changes += step > 0 and new != boxes[which]
            boxes[which].clear()
            boxes[which].update(new)
            (seq.set_particle_selector, seq.set_tracer_selector)[which](
                picked[which])
            sets[which] = [m for m in all_sets[which] if m.trajid in new]
        what = 'step %d, selected %s' % (step, [sorted(b) for b in boxes])
        if case.chance(.5):
            match.same_traj_set(case, seq.particle_trajectories(), sets[0],
                what + ', particles')
            match.same_traj_set(case, seq.tracer_trajectories(), sets[1],
                what + ', tracers')
        big = max(big, check_pairs(case, seq, sets, rng[0], rng[1], what,
            case.pick([None, 1])))
    case.note(changes=changes)
    if changes and big:
        case.nontrivial(rng, [m.props for ms in all_sets for m in ms])


@R30.scenario(quick=2, thorough=60)
def many_frames(case):
    """The same over long recordings."""
    case.frames = gen.round_number(case, 520)
    histories(case)


@R31.scenario(quick=150, thorough=3000)
def mapping(case):
    seq, rng, all_sets, paths = make(case, empty=True)
    sets = all_sets
    nontriv = False
    for attempt in range(case.integer(1, 3)):
        if case.chance(.3):
            names = [case.pick(sorted(SELECTORS)) for _ in all_sets]
            seq.set_particle_selector(SELECTORS[names[0]])
            seq.set_tracer_selector(SELECTORS[names[1]])
            sets = [select(SELECTORS[n], ms) for n, ms in zip(names, all_sets)]
        sub = None
        if case.chance(.6):
            a = case.integer(rng[0], rng[1] - 1)
            sub = (a, case.integer(a, rng[1]))
        a, b = rng if sub is None else sub
        history = case.chance(.5)
        args = tuple(case.rng.normal(size=case.integer(0, 2)).tolist())
        kind = case.pick(['scalar', 'vec', 'int', 'some'])
        calls = []

        def func(s, frame, nxt, *rest):
            case.check(s is seq, 'first argument of the function')
            if history:
                res, rest = rest[0], rest[1:]
            case.check(rest == args, 'extra arguments', got=rest, want=args)
            calls.append(frame.particles.time())
            ids = frame.particles.trajid()
            ids = ids.astype(int).tolist()
            diff = nxt.particles.pos() - frame.particles.pos()
            base = diff * (1 + sum(rest)) + len(frame.tracers)
            out = {}
            for i in case.rng.permutation(len(ids)):
                v = base[i] if kind == 'vec' else base[i,0]
                if kind == 'int':
                    v = int(1000*v)
                elif kind == 'some' and (ids[i] + calls[-1]) % 3 == 0:
                    v = None
                elif history:
                    done = [x for x in res[ids[i]] if x is not None]
                    if done and kind != 'some':
                        v = v + .5*done[-1] + len(done)
                out[ids[i]] = v
            return out

        kwds = {}
        if sub is not None:
            kwds['subrange'] = sub
        if history:
            kwds['history'] = True
        if args or case.chance(.5):
            kwds['args'] = args
        got = seq.map_trajectories(func, **kwds)
        case.check(calls == list(range(a, b)), 'frames given to the function',
            got=calls, want=[a, b])
        tracers = gen.frames_of(sets[1])
        want = {}
        for m in sets[0]:
            series = []
            for i, t in enumerate(m.time()[:-1]):
                if not a <= t < b or m.time()[i+1] != t + 1:
                    continue
                nt = sum(1 for tr, _ in tracers.get(int(t), [])
                    if t + 1 in tr.time())
                v = (m.props['pos'][i+1] - m.props['pos'][i])*(1 + sum(args)) + nt
                if kind != 'vec':
                    v = v[0]
                if kind == 'int':
                    v = int(1000*v)
                elif kind == 'some':
                    if (m.trajid + int(t)) % 3 == 0:
                        v = None
                elif history and series:
                    v = v + .5*series[-1] + len(series)
                series.append(v)
            if series:
                want[m.trajid] = np.array(series)
        case.check(set(got) == set(want), 'trajectories with results',
            got=sorted(got), want=sorted(want))
        for k in want:
            case.check(isinstance(got[k], np.ndarray), 'type of results',
                got=type(got[k]).__name__)
            if kind == 'some':
                case.check(len(got[k]) == len(want[k]), 'number of results')
                has = np.array([x is not None for x in got[k]])
                case.equal(has, np.array([x is not None for x in want[k]]),
                    'which results of trajectory %d are none' % k)
                got[k], want[k] = got[k][has].astype(float), \
                    want[k][has].astype(float)
            elif kind == 'int':
                case.check(got[k].dtype.kind == 'i', 'type of whole results')
            case.close(got[k], want[k], 'results of trajectory %d' % k, 1e-9,
                1e-12)
            case.count('results compared', len(want[k]))
        nontriv = nontriv or sum(len(v) > 1 for v in want.values()) > 1
        case.check(tuple(seq.range()) == rng, 'the range changed')
        case.note(subrange=sub, history=history, args=args, kind=kind)
    if nontriv:
        case.nontrivial(rng, sub, history, [m.props for m in all_sets[0]])


@R32.scenario(quick=500, thorough=12000)
def nearest(case):
    from flowtracks.pairs import particle_pairs
    lo = case.pick([0, 40, 100001, -4])
    span = gen.some_frames(case, 2, 8)
    prim = gen.traj_models(case,
        types=gen.types(case), n=case.integer(1, 8), first=lo, span=span,
        holes=case.chance(.4))
    sec = gen.traj_models(case,
        types=gen.types(case), n=case.integer(1, 8), first=lo, span=span,
        holes=case.chance(.4))
    if case.chance(.4): # Some almost at the same places
        spread = case.pick([1e-3, 1e-5, 1e-7])
        for p in prim:
            for s in sec:
                if case.chance(.5):
                    _, a, b = np.intersect1d(p.time(), s.time(),
                        return_indices=True)
                    pos = s.props['pos'].copy()
                    pos[b] = p.props['pos'][a] + case.rng.normal(0., spread,
                        (len(a), 3))
                    s.props['pos'] = pos
    if case.chance(.4): # All of them far from the origin
        shift = case.rng.uniform(-1., 1., 3)*case.pick([1., 100., 1e4])
        for m in prim + sec:
            m.props['pos'] = (m.props['pos'] + shift).astype(
                m.props['pos'].dtype)
    if case.chance(.03):
        sec = []
    points = [(m.trajid, i) for m in prim for i in range(len(m))]
    perm = case.rng.permutation(len(points))
    points = [points[i] for i in perm[:0 if case.chance(.02) else
        case.integer(1, len(points))]]
    if points and case.chance(.2):
        points.append(points[0])
    trids = np.array([p[0] for p in points], dtype=int)
    ixs = np.array([p[1] for p in points], dtype=int)
    small = case.pick([None, None, np.int32, np.int16])
    if small is not None: # Indices fit in less than ids and frames do.
        ixs = ixs.astype(small)
    tp, ts = [gen.real_traj(m) for m in prim], [gen.real_traj(m) for m in sec]
    case.watch(tp, ts, trids, ixs)
    got_id, got_ix = particle_pairs(tp, ts, trids, ixs)
    case.check(np.shape(got_id) == np.shape(got_ix) == trids.shape, 'shapes',
        got=[np.shape(got_id), np.shape(got_ix)])
    by_id = dict((m.trajid, m) for m in prim)
    found = set()
    for n, (trid, ix) in enumerate(points):
        m = by_id[trid]
        t, pos = m.time()[ix], m.props['pos'][ix]
        best, dist = None, {}
        for s in sec:
            row = np.nonzero(s.time() == t)[0]
            if len(row) and t + 1 in s.time():
                d = np.linalg.norm(s.props['pos'][row[0]].astype(float) - pos)
                dist[s.trajid, row[0]] = d
                if best is None or d < best[0]:
                    best = (d, s.trajid, row[0])
        what = 'pair of point %d of trajectory %d' % (ix, trid)
        if best is None:
            case.check(got_ix[n] == -1, what + ': there is none', got=got_ix[n])
        else:
            got = int(got_id[n]), int(got_ix[n])
            case.check(got in dist and dist[got] <= best[0]*(1. + 1e-6), what,
                got=got, want=best, frame=int(t))
            found.add(best[1:])
        case.count('pairs compared')
    case.note(points=len(points), primary=len(prim), secondary=len(sec),
        found=len(found))
    if len(found) > 1:
        case.nontrivial(points, [m.props for m in sec])
