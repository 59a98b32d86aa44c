"""Frame-by-frame analysis, its results, and the joined view of them."""
import gc
import numpy as np

from .. import gen, match
from ..core import Property
from . import interp, scenes

R18 = Property('R18',
    'Random dual scenes and sets of random analysers (scalar, vector, integer '
    'results, stateful ones), with and without a temporary frame range, over old '
    'files; the table is compared with brute force over the pairs of frames and '
    'with what the analysers returned. Non-trivial: at least four rows in at '
    'least two pairs of frames.',
    scenes.PRE + ['without a range, both files have the same first and last '
        'frames'])
R19 = Property('R19',
    'Analyses of random dual scenes, read through the joined view: random '
    'columns of both sources, conditions on either, and trajectories; compared '
    'with brute-force joins. Non-trivial: some of the rows but not all were '
    'selected, or a trajectory of three or more points was compared.',
    scenes.PRE)
R20 = Property('R20',
    'Random frames of a dual scene (with and without companions, particles at '
    'tracer positions, frames without tracers), one analyser for all; results '
    'are compared with brute-force interpolation. Non-trivial: two or more '
    'particles and two or more tracers.', interp.PRE)


class Probe(object):
    """
    An analyser which records what it was given. Its results depend on both
    frames, both kinds of particles, and (if stateful) on the calls before.
    """
    def __init__(self, case, prefix):
        self.calls = []
        kinds = ['scalar', 'column', 'int', 'vec', 'vec2', 'state']
        kinds = [kinds[i] for i in case.rng.permutation(6)[:case.integer(1, 4)]]
        self.items = [('%s_%s' % (prefix, k), k) for k in kinds]
        # Names that look like others
        if case.chance(.2):
            self.items[0] = (prefix, self.items[0][1])

    def descr(self):
        types = {'scalar': (float, 1), 'column': (float, 1), 'int': (int, 1),
            'vec': (float, 3), 'vec2': (float, 2), 'state': (float, 1)}
        return [(name,) + types[k] for name, k in self.items]

    @staticmethod
    def compute(kind, ids, pos, vel, npos, ntracers, calls):
        diff = npos - pos
        return {
            'scalar': diff[:,0] + 2*vel[:,1] + ntracers,
            'column': (diff[:,1]*3 - pos[:,2])[:,None],
            'int': ids*10 + ntracers,
            'vec': diff*2 + vel,
            'vec2': np.stack((diff[:,2], pos[:,0]), axis=1),
            'state': pos[:,0] + 1000.*calls,
        }[kind]

    def analyse(self, frame, next_frame):
        self.calls.append((frame, next_frame))
        p, n = frame.particles, next_frame.particles
        return [self.compute(k, np.asarray(p.trajid()).astype(int), p.pos(),
            p.velocity(), n.pos(), len(frame.tracers), len(self.calls))
            for _, k in self.items]


def small_dual(case):
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    (pfile, parts, tfile, tracers), full, whole = scenes.dual_files(case)
    lo, hi = full
    default = case.pick([None if whole else full, full, full, (lo, hi - 1),
        (lo + 1, hi)])
    conf = case.path('dual.cfg')
    a, b = default or full
    with open(conf, 'w') as f:
        f.write('[Particle]\ndensity = 1450\ndiameter = 5e-4\n[Scene]\n'
            'particles file = %s\ntracers file = %s\nfirst frame = %d\n'
            'last frame = %d\nframe rate = 500\n' % (pfile, tfile, a, b - 1))
    dual = DualScene(tfile, pfile, 500., Particle(5e-4, 1450.), default)
    return dual, conf, pfile, parts, tracers, full, default, whole


def pairs(models, a, b):
    """For each first frame of a pair, {id: (model, row)} that continue."""
    frames = gen.frames_of(models)
    out = []
    for t in range(a, b - 1):
        nxt = set(m.trajid for m, _ in frames.get(t + 1, []))
        out.append((t, dict((m.trajid, (m, i)) for m, i in frames.get(t, [])
            if m.trajid in nxt)))
    return out


@R18.scenario(quick=130, thorough=2600)
def tables_of_results(case):
    from flowtracks.analysis import analysis, GeneralAnalyser
    import tables
    dual, conf, pfile, parts, tracers, full, default, whole = small_dual(case)
    probes = [Probe(case, n) for n in ['ab', 'vel_ab', 'c'][:case.integer(1, 3)]]
    out = case.path('analysis.h5')
    if case.chance(.3): # an old analysis to be replaced
        analysis(dual, out, conf, [Probe(case, 'old')])
    sub = case.pick([-1, -1, 'new'])
    if sub == 'new':
        a = case.integer(full[0], full[1] - 2)
        sub = case.pick([(a, case.integer(a + 2, full[1])), (a, full[1]),
            None if whole else full])
    rng = default if sub == -1 else sub
    a, b = full if rng is None else rng
    before = [tuple(s.frame_range()) for s in
        (dual.get_particles(), dual.get_tracers())]
    if sub == -1:
        analysis(dual, out, conf, probes)
    else:
        analysis(dual, out, conf, probes, sub)
    after = [tuple(s.frame_range()) for s in
        (dual.get_particles(), dual.get_tracers())]
    case.check(before == after, 'the frame range of the scene was changed',
        before=before, after=after)

    want_pairs = pairs(parts, a, b)
    want_tr = dict(pairs(tracers, a, b))
    for pr in probes:
        case.check([c[0].particles.time() for c in pr.calls] ==
            [t for t, _ in want_pairs], 'frames given to an analyser',
            got=[c[0].particles.time() for c in pr.calls],
            want=[t for t, _ in want_pairs])
        for (frame, nxt), (t, now) in zip(pr.calls, want_pairs):
            ids = np.asarray(frame.particles.trajid()).astype(int)
            case.equal(np.sort(ids), sorted(now), 'particles given to an '
                'analyser in frame %d' % t)
            case.equal(nxt.particles.trajid(), ids, 'particles of the next frame')
            for i, trid in enumerate(ids):
                m, row = now[trid]
                case.equal(frame.particles.pos(i), m.props['pos'][row],
                    'position given to an analyser')
                case.equal(nxt.particles.pos(i), m.props['pos'][row + 1],
                    'next position given to an analyser')
            case.check(len(frame.tracers) == len(want_tr[t]), 'number of tracers '
                'given to an analyser', got=len(frame.tracers),
                want=len(want_tr[t]))

    f = tables.open_file(out)
    try:
        got = f.root.analysis.read()
        attrs = f.root.analysis._v_attrs
        case.check(str(attrs['config']) == conf and str(attrs['trajects']) ==
            pfile, 'references to the sources', config=str(attrs['config']),
            trajects=str(attrs['trajects']))
    finally:
        f.close()
    names = ['trajid', 'time'] + [n for pr in probes for n, _ in pr.items]
    case.check(sorted(got.dtype.names) == sorted(names), 'columns of the table',
        got=got.dtype.names, want=names)
    keys = [(int(r['trajid']), int(r['time'])) for r in got]
    want_keys = sorted((i, t) for t, now in want_pairs for i in now)
    case.check(sorted(keys) == want_keys, 'rows of the table: one for each '
        'particle that continues, in each frame', got=len(keys),
        want=len(want_keys))
    rows = dict(zip(keys, got))
    frame_no = dict((t, i + 1) for i, (t, _) in enumerate(want_pairs))
    for t, now in want_pairs:
        for trid, (m, i) in now.items():
            p = m.props
            for pr in probes:
                for (name, kind), (_, typ, length) in zip(pr.items, pr.descr()):
                    want = Probe.compute(kind, np.r_[trid], p['pos'][i:i+1],
                        p['velocity'][i:i+1], p['pos'][i+1:i+2], len(want_tr[t]),
                        frame_no[t])
                    want = want.reshape(length)[0] if length == 1 else want[0]
                    val = rows[trid, t][name]
                    case.equal(val, want, 'column %s of particle %d in frame %d'
                        % (name, trid, t))
                    case.check(np.asarray(val).dtype.kind ==
                        np.dtype(typ).kind, 'type of column ' + name)
                    case.count('values compared')
    case.note(range=[a, b], rows=len(keys), columns=names)
    nothing = GeneralAnalyser()
    case.raises(NotImplementedError, nothing.descr, 'abstract method')
    case.raises(NotImplementedError, lambda: nothing.analyse(*probes[0].calls[0]),
        'abstract method')
    if len(keys) > 3 and len(want_pairs) > 1:
        case.nontrivial(keys, names, [m.props for m in parts])


def joined(case, dual, conf, parts, tracers, full, default):
    """
    An analysis and, for each column, its values by (trajid, time), as far as
    they are in the range of the configuration.
    """
    from flowtracks.analysis import analysis
    out = case.path('analysis.h5')
    probes = [Probe(case, n) for n in ['ab', 'fluid'][:case.integer(1, 2)]]
    first, last = a, b = default or full
    if case.chance(.3): # a part, or more than the configuration says
        a = case.integer(full[0], full[1] - 2)
        b = case.integer(a + 2, full[1])
        analysis(dual, out, conf, probes, (a, b))
    else:
        analysis(dual, out, conf, probes)
    want_tr = dict(pairs(tracers, a, b))
    table = []   # (trajid, time, {column: value})
    for n, (t, now) in enumerate(pairs(parts, a, b)):
        if not first <= t < last:
            continue
        for trid, (m, i) in now.items():
            p = m.props
            vals = dict((k, v[i]) for k, v in p.items() if k != 'time')
            vals['trajid'], vals['time'] = trid, t
            for pr in probes:
                for (name, kind), d in zip(pr.items, pr.descr()):
                    v = Probe.compute(kind, np.r_[trid], p['pos'][i:i+1],
                        p['velocity'][i:i+1], p['pos'][i+1:i+2],
                        len(want_tr[t]), n + 1)
                    vals[name] = v.reshape(d[2])[0] if d[2] == 1 else v[0]
            table.append(vals)
    derived = [(name, d[2]) for pr in probes
        for (name, _), d in zip(pr.items, pr.descr())]
    return out, table, derived


@R19.scenario(quick=110, thorough=2200)
def joins(case):
    from flowtracks.an_scene import AnalysedScene
    from flowtracks.analysis import analysis
    dual, conf, pfile, parts, tracers, full, default = small_dual(case)[:-1]
    out, table, derived = joined(case, dual, conf, parts, tracers, full, default)
    scene = AnalysedScene(out)
    pkeys = [k for k in parts[0].props if k != 'time']
    keys, shapes = list(scene.keys()), list(scene.shapes())
    case.check(sorted(keys) == sorted(pkeys + [n for n, _ in derived]),
        'keys', got=keys)
    case.check(len(keys) == len(shapes), 'shapes of keys')
    sizes = dict((k, parts[0].props[k].shape[1:]) for k in pkeys)
    sizes.update((k, (s,) if s > 1 else ()) for k, s in derived)
    for k, s in zip(keys, shapes):
        if len(sizes[k]) < 2:
            want = sizes[k][0] if sizes[k] else 1
            case.check(s == want, 'shape of ' + k, got=s, want=want)

    partial = False
    for attempt in range(3):
        some = keys + ['trajid', 'time']
        some = [some[i] for i in case.rng.permutation(len(some))[:case.integer(1,
            min(5, len(some)))]]
        if case.chance(.1): # The same column twice
            some.append(case.pick(some))
        mask = np.ones(len(table), dtype=bool)
        where = None
        scalars = [k for k in keys if sizes[k] == ()] + ['trajid', 'time']
        if len(table) and case.chance(.75):
            where = {}
            for i in case.rng.permutation(len(scalars))[:case.integer(1, 3)]:
                k = scalars[i]
                where[k], sel = scenes.condition(case, [v[k] for v in table])
                mask &= sel
            keep = dict(where)
        got = scene.collect(some) if where is None else \
            scene.collect(some, where)
        if where is not None:
            case.check(where == keep, 'the conditions were modified')
        case.check(len(got) == len(some), 'number of arrays')
        n = int(mask.sum())
        want = []
        for k in some:
            col = np.array([v[k] for v, s in zip(table, mask) if s], dtype=float)
            want.append(col.reshape((n,) + sizes.get(k, ())))
        for k, g, w in zip(some, got, want):
            case.check(np.shape(g) == w.shape, 'shape of column ' + k,
                got=np.shape(g), want=w.shape)
        case.equal(match.sorted_rows(got), match.sorted_rows(want), 'rows of '
            + ', '.join(some), where=where)
        case.count('rows collected', n)
        case.note(keys=some, where=where, selected=n, of=len(table))
        partial = partial or 0 < n < len(table)
    if case.chance(.3): # The file is free again when the view is gone.
        del scene
        gc.collect()
        analysis(dual, out, conf, [Probe(case, 'again')])
        scene = AnalysedScene(out)
        case.check([k for k in scene.keys() if k.startswith('again')] and
            len(scene.collect(['time'])[0]) == sum(len(now) for _, now in
            pairs(parts, *(default or full))), 'another analysis to '
            'the same file')
    if partial:
        case.nontrivial(where, some, [m.props for m in parts])


@R19.scenario(quick=80, thorough=1600)
def joined_trajectories(case):
    from flowtracks.an_scene import AnalysedScene
    dual, conf, pfile, parts, tracers, full, default = small_dual(case)[:-1]
    lo, hi = full
    parts = gen.traj_models(case,
        types=gen.types(case), n=case.integer(1, 6), first=lo, span=hi - lo,
        holes=case.chance(.4))
    gen.write_particles(pfile + '2', parts, order=case.pick(['traj', 'frames']),
        bounds=case.chance(.5))
    a, b = default or full
    text = open(conf).read().replace(pfile, pfile + '2')
    with open(conf, 'w') as f:
        f.write(text)
    from flowtracks.scene import read_dual_scene
    dual = read_dual_scene(conf)
    out, table, derived = joined(case, dual, conf, parts, tracers, full, (a, b))
    scene = AnalysedScene(out)
    rows = dict(((v['trajid'], v['time']), v) for v in table)
    longest = 0
    def check(tr, m):
        t = np.array(sorted(t for i, t in rows if i == m.trajid))
        case.equal(tr.time(), t, 'times of an analysed trajectory')
        case.check(int(tr.trajid()) == m.trajid, 'trajectory id')
        props = match.props_of(tr)
        names = [k for k in m.props if k != 'time'] + [n for n, _ in derived]
        case.check(sorted(props) == sorted(names + ['time']), 'properties',
            got=sorted(props), want=sorted(names))
        for k in names:
            for i, tt in enumerate(t):
                case.equal(props[k][i], rows[m.trajid, int(tt)][k],
                    'property %s of trajectory %d at %d' % (k, m.trajid, tt))
                case.count('values compared')
            case.check(len(props[k]) == len(t), 'length of property ' + k)
        return len(t)
    seen = []
    for tr in scene.iter_trajectories():
        m = [m for m in parts if m.trajid == int(tr.trajid())]
        case.check(len(m) == 1, 'unknown trajectory', got=tr.trajid())
        seen.append(m[0].trajid)
        longest = max(longest, check(tr, m[0]))
    case.check(sorted(seen) == sorted(m.trajid for m in parts), 'trajectories '
        'iterated over', got=seen)
    m = case.pick(parts)
    check(scene.trajectory_by_id(m.trajid), m)
    case.note(trajectories=len(parts), range=[a, b], longest=longest)
    if longest > 2:
        case.nontrivial([m.props for m in parts])


# ------------------------------------------------------------- fluid velocities

def frame_of(case, scene_model, companions, t):
    """The library's frame."""
    from flowtracks.trajectory import Frame, ParticleSnapshot
    fr = Frame()
    sm = scene_model
    fr.tracers = ParticleSnapshot(pos=sm.tracers.copy(),
        velocity=sm.data.copy(), trajid=sm.ids.copy(), time=t)
    kwds = {}
    if companions is not None:
        kwds['companion'] = companions.copy()
    fr.particles = ParticleSnapshot(pos=sm.points.copy(),
        velocity=sm.pvel.copy(), trajid=np.arange(len(sm.points)), time=t, **kwds)
    return fr


@R20.scenario(quick=400, thorough=10000)
def fluid_velocities(case):
    from flowtracks.analysis import FluidVelocitiesAnalyser
    from flowtracks.interpolation import interpolant
    method = case.pick(['inv', 'inv', 'inv', 'rbf'])
    k = case.pick([1, 3, 4, 7])
    par = case.pick([1, 2]) if method == 'inv' else 5.
    an = FluidVelocitiesAnalyser(interpolant(method, k, param=par))
    case.check([(n, np.dtype(t).kind, l) for n, t, l in an.descr()] ==
        [('fluid_vel', 'f', 3), ('rel_vel', 'f', 3)], 'description')
    nontriv, frames, kept = False, 0, []
    for step in range(case.integer(1, 5)):
        sm = interp.Scene(case, d=3, comp=False)
        if kept and case.chance(.5): # As many particles as in some frame before
            m = len(case.pick(kept)[0])
            sm.points = np.vstack((sm.points,
                case.rng.uniform(-1, 1, (m, 3))*sm.size + sm.shift))[:m]
        f = 1. / sm.size
        sm.size, sm.tracers, sm.points = 1., sm.tracers*f, sm.points*f
        if case.chance(.1):
            sm.tracers, sm.data = sm.tracers[:0], sm.data[:0]
        if case.chance(.1):
            sm.points = sm.points[:0]
        sm.pvel = case.rng.normal(size=sm.points.shape)
        sm.pvel[case.rng.random(len(sm.points)) < .1] = 0. # at rest
        n = len(sm.tracers)
        sm.ids = np.array(gen.unique_ids(case, n), dtype=int)
        comp_ids = None
        if case.chance(.5):
            comp_ids = np.full(len(sm.points), -1)
            sm.comp = np.full(len(sm.points), -1)
            for i in range(len(comp_ids)):
                kind = case.pick(['none', 'gone', 'tracer', 'tracer'])
                if kind == 'gone' or n == 0:
                    comp_ids[i] = 100000 + i
                elif kind == 'tracer':
                    j = case.integer(0, n - 1)
                    if case.chance(.6):
                        j = int(np.argmin(sm.dists()[i]))
                    sm.comp[i], comp_ids[i] = j, sm.ids[j]
        if n and len(sm.points) and interp.unclear(sm, k, None):
            continue
        # Frames of several scenes may have the same number.
        t = step if case.chance(.6) else 0
        fr = frame_of(case, sm, comp_ids, t)
        nx = frame_of(case, sm, comp_ids, t + 1)
        case.watch(fr.tracers, fr.particles, nx.tracers, nx.particles)
        res = an.analyse(fr, nx)
        case.check(len(res) == 2, 'number of results')
        fluid, rel = res
        kept.append((fluid, rel, np.array(fluid), np.array(rel)))
        case.check(np.shape(fluid) == np.shape(rel) == (len(sm.points), 3),
            'shapes', got=[np.shape(fluid), np.shape(rel)])
        frames += 1
        if n == 0:
            case.equal(fluid, np.zeros_like(sm.points), 'fluid velocity without '
                'tracers')
            case.close(rel, sm.pvel, 'relative velocity without tracers')
            continue
        nb = interp.neighbours(sm, k)
        h = interp.have(nb)
        if method == 'inv':
            want = interp.ref_inv(sm, nb, par)
        else:
            want, cond = interp.ref_rbf(sm, nb, par)
            if cond > 1e6:
                continue
        case.close(fluid[h], want[h], 'fluid velocity', 1e-6, 1e3*interp.tol(sm))
        case.close(rel[h] + fluid[h], sm.pvel[h], 'sum of fluid and relative '
            'velocity', 1e-9, 1e-9*np.abs(sm.data).max() + 1e-12)
        case.count('particles compared', h.sum())
        nontriv = nontriv or (h.sum() > 1 and n > 1)
    for i, (fluid, rel, fluid_was, rel_was) in enumerate(kept):
        case.equal(fluid, fluid_was, 'fluid velocity of frame %d, at the end' % i)
        case.equal(rel, rel_was, 'relative velocity of frame %d, at the end' % i)
    interp.describe(case, sm, method=method, k=k)
    case.count('frames analysed', frames)
    if nontriv:
        case.nontrivial(method, k, par, sm.tracers, sm.points)


@R20.scenario(quick=200, thorough=5000)
def companions(case):
    from flowtracks.analysis import companion_indices
    n = case.pick([case.integer(0, 12), case.integer(0, 12), 300])
    if case.big:
        n *= case.pick([1, 1, case.pick([1, 150, 250])])
    m = case.integer(0, 12)
    ids = np.array(gen.unique_ids(case, n), dtype=int)
    comp = case.rng.integers(-1, 3*n + 9, m)
    for i in range(m):
        if n and case.chance(.5):
            comp[i] = case.pick(ids)
    small = case.pick([np.int64, np.int64, np.int32, np.int16, np.int8, float])
    if small is float or not m or comp.max() <= np.iinfo(small).max:
        comp = comp.astype(small)
    case.watch(ids, comp)
    got = companion_indices(ids, comp)
    case.check(len(got) == m, 'length')
    hits = 0
    for g, c in zip(got, comp):
        where = np.nonzero(ids == c)[0]
        if len(where):
            hits += 1
            case.check(g == where[0], 'index of companion', got=g, want=where[0])
        else:
            case.check(g < 0, 'index of an absent companion', got=g)
    case.note(ids=ids, companions=comp)
    if hits > 1 and hits < m:
        case.nontrivial(ids, comp)
