"""Wrong requests: refused with an error, leaving everything as it was."""
import gc, os, subprocess, sys, warnings
import numpy as np

from .. import core, gen, match
from ..core import Property
from . import analysing, scenes, seq

R38 = Property('R38',
    'Histories of proper and wrong requests (unknown methods, columns and '
    'conditions, missing or malformed files and values of configurations, '
    'ranges that are no pairs of numbers, selections that do not fit, functions '
    'that fail) to scenes, dual and analysed scenes, sequences, interpolants, '
    'particle sets, readers and the script. Each wrong one must raise an error, '
    'and the proper ones after it give what they give at first. Non-trivial: two '
    'or more wrong requests, each followed by a proper one.',
    ['which type of error is free where the documentation names none'])


class Failing(Exception):
    """Raised by functions given to the library."""


def refused(case, what, request, kinds=Exception):
    """The request has to fail, not to give a result."""
    try:
        got = request()
        if hasattr(got, '__next__'): # or in its first step
            list(got)
    except core.Stuck:
        raise
    except kinds:
        case.count('requests refused')
        case.count('oracle decisions')
        return
    except Exception as e:
        case.fail('%s: wrong type of error' % what, got=repr(e))
    case.fail('%s: no error' % what, got=repr(got))


def content(x):
    """Comparable form of results."""
    from flowtracks.trajectory import ParticleSet
    if isinstance(x, ParticleSet):
        d = dict(x.as_dict())
        d['time'] = x.time()
        d['trajid'] = x.trajid()
        if np.ndim(x.time()) == 0: # of a frame, where order may be free
            order = np.argsort(x.trajid(), kind='stable')
            d = dict((k, v if k == 'time' else v[order]) for k, v in d.items())
        return content(d)
    if isinstance(x, dict):
        return dict((k, content(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)) or hasattr(x, '__next__'):
        return [content(v) for v in x]
    if hasattr(x, 'particles'):
        return [content(x.particles), content(x.tracers)]
    return x if x is None or isinstance(x, str) else np.array(x)


def history(case, what, proper, wrong):
    """
    proper - {name: request}, each to give the same whenever made.
    wrong - [(name, request) or (name, request, types of errors)]
    """
    first = dict((k, content(f())) for k, f in proper.items())
    done = []
    n = case.integer(3, 10)
    names = list(proper)
    for i in range(n):
        req = case.pick(wrong)
        refused(case, '%s: %s' % (what, req[0]), *req[1:])
        done.append(req[0])
        for k in [case.pick(names)] if i < n - 1 else names:
            got = content(proper[k]())
            case.check(core.digest(got) == core.digest(first[k]),
                '%s: %s is different after refused requests' % (what, k),
                refused=done, got=got, first=first[k])
    gc.collect()
    case.check(not any(os.path.basename(p) in ('junk.h5', 'o.h5', 'w.h5', 'text.h5',
        'other.h5') for p in case.open_files()), '%s: files are left open by refused requests'
        % what, refused=done, files=case.open_files())
    case.note(subject=what, refused=done)
    if len(done) >= 2:
        case.nontrivial(what, done, [core.digest(v) for v in first.values()])


BAD_RANGES = [3, (1, 2, 3), ('a', 2), (1, 'b'), 'ab', (None,)]


@R38.scenario(quick=80)
def scene(case):
    from flowtracks.scene import Scene
    path, models = scenes.write(case)
    rng = scenes.random_range(case, models)
    sc = Scene(path, rng)
    t = scenes.span(models)[0]
    bad = case.pick(BAD_RANGES)
    cols = case.pick([['pos'], ['pos', 'velocity']])
    proper = {
        'frames': sc.iter_frames, 'segments': sc.iter_segments,
        'trajectories': sc.iter_trajectories,
        'columns': lambda: sc.collect(['pos', 'time']),
        'selected': lambda: sc.collect(['pos'], {'time': (t, t + 2, False)}),
        'range': sc.frame_range,
        'one': lambda: sc.trajectory_by_id(models[0].trajid),
    }
    missing = case.path('missing.h5')
    other = case.path('other.h5')
    import tables
    f = tables.open_file(other, 'w')
    f.create_table('/', 'particle', np.dtype([('a', int)]))
    f.close()
    text = case.path('text.h5')
    with open(text, 'w') as f:
        f.write('1 2 3\n')
    history(case, 'scene', proper, [
        ('range %r' % (bad,), lambda: sc.set_frame_range(bad)),
        ('unknown column', lambda: sc.collect(['nothing'])),
        ('known and unknown column', lambda: sc.collect(cols + ['nothing'])),
        ('unknown column with a condition', lambda: sc.collect(
            ['nothing'] + cols, {'time': (t, t + 2, False)})),
        ('condition on an unknown column', lambda: sc.collect(cols,
            {'nothing': (0, 1, False)})),
        ('missing file', lambda: Scene(missing), OSError),
        ('file without particles', lambda: Scene(other)),
        ('file of another kind', lambda: Scene(text)),
    ])
    case.check(not os.path.exists(missing), 'a missing file was made')


@R38.scenario(quick=40)
def dual(case):
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    from flowtracks.analysis import analysis
    from flowtracks.an_scene import AnalysedScene
    dual, conf, pfile, parts, tracers, full, default, whole = \
        analysing.small_dual(case)
    bad = case.pick(BAD_RANGES)
    out = case.path('out.h5')
    probe = analysing.Probe(case, 'x')

    class Wrong(analysing.Probe):
        def __init__(self, how):
            self.how = how
        def descr(self):
            return [('w', float, 3)]
        def analyse(self, frame, next_frame):
            n = len(frame.particles)
            if self.how == 'rows':
                return [np.zeros((n + 2, 3))]
            if self.how == 'columns':
                return [np.zeros((n, 2))]
            raise Failing

    some = any(len(f.particles) > 0 for f, _ in dual.iter_segments())
    analysis(dual, out, conf, [probe])
    an = AnalysedScene(out)
    keys = an.keys()
    cond = case.pick([k for k in keys if np.prod(an.shapes()[keys.index(k)]) == 1]
        or [None])
    proper = {'frames': dual.iter_frames, 'segments': dual.iter_segments,
        'trajectories': an.iter_trajectories,
        'range': dual.get_range}
    if scenes.effective(parts, dual.get_range())[1] > \
            scenes.effective(parts, dual.get_range())[0]:
        proper['columns'] = lambda: an.collect(keys[:1] + ['pos'])
    junk = case.path('junk.h5')
    wrong = [
        ('range %r' % (bad,), lambda: dual.iter_frames(bad)),
        ('range %r of segments' % (bad,), lambda: dual.iter_segments(bad)),
        ('analysis of range %r' % (bad,), lambda: analysis(dual, junk, conf,
            [probe], bad)),
        ('missing tracers', lambda: DualScene(junk + 'x', pfile, 500.,
            Particle(1., 1.), full)),
        ('unknown column', lambda: an.collect(['nothing'])),
        ('known and unknown column', lambda: an.collect(['pos', 'nothing'])),
        ('missing analysis', lambda: AnalysedScene(junk + 'y')),
        ('a scene as an analysis', lambda: AnalysedScene(pfile)),
        ('base class', lambda: analysis_base(dual)),
    ]
    if some:
        wrong += [('condition on an unknown column', lambda: an.collect(['pos'],
            {'nothing': (0, 1, False)})),
            ('results with too many rows', lambda: analysis(dual, junk,
            conf, [Wrong('rows')])),
            ('results with too few columns', lambda: analysis(dual, junk,
            conf, [Wrong('columns')])),
            ('failing analyser', lambda: analysis(dual, junk, conf,
            [Wrong('fails')]), Failing)]
    history(case, 'dual scene', proper, wrong)


def analysis_base(dual):
    from flowtracks.analysis import GeneralAnalyser
    return GeneralAnalyser().analyse(None, None)


@R38.scenario(quick=200)
def interpolants(case):
    from flowtracks import interpolation as ip
    n, m = case.integer(6, 12), case.integer(2, 5)
    tr = case.rng.random((n, 3))
    pts = case.rng.random((m, 3))
    data = case.rng.random((n, case.integer(1, 3)))
    method = case.pick(['inv', 'rbf', 'corrfun'])
    corr = case.path('c.npz')
    np.savez(corr, corrs=np.r_[1., .5, .2], bins=np.r_[0., .1, .5])
    no_bins = case.path('d.npz')
    np.savez(no_bins, corrs=np.r_[1., .5, .2])
    param = {'inv': 1., 'rbf': 2., 'corrfun': corr}[method]
    ipl = ip.interpolant(method, 4, param=param)
    new = ip.interpolant(method, 4, param=param)
    ipl.set_scene(tr, pts, data)
    cfg = case.path('i.cfg')

    def read(text):
        with open(cfg, 'w') as f:
            f.write(text)
        return ip.read_interpolant(cfg)

    proper = {'scene': ipl.interpolate, 'call': lambda: ipl(tr, pts, data),
        'derivatives': ipl.eulerian_jacobian,
        'distances': lambda: ipl.neighb_dists(tr, pts)}
    name = case.pick(['Inv', 'spline', '', 'linear', 'rbf ', 'corr'])
    wrong = [
        ('method %r' % name, lambda: ip.interpolant(name, 4),
            NotImplementedError),
        ('no correlation function', lambda: ip.interpolant('corrfun', 4),
            ValueError),
        ('missing correlation function', lambda: ip.interpolant('corrfun', 4,
            param=corr + 'x')),
        ('file without bins', lambda: ip.interpolant('corrfun', 4,
            param=no_bins)),
        ('neither number nor radius', lambda: ip.select_neighbs(tr, pts),
            ValueError),
        ('nothing recorded', new.interpolate),
        ('no such neighbours', lambda: ipl.interpolate(
            np.full((m, 2), n + 1 + case.integer(0, 3)))),
        ('selection of points of another size', lambda: ipl.trim_points(
            np.zeros(m + 1, dtype=bool))),
        ('missing configuration', lambda: ip.read_interpolant(cfg + 'x')),
        ('configuration without a section', lambda: read('[Other]\na = 1\n')),
        ('configuration without a method', lambda: read(
            '[Interpolant]\nnum_neighbs = 4\n')),
        ('unknown method in a configuration', lambda: read(
            '[Interpolant]\nmethod = other\nnum_neighbs = 4\n'),
            NotImplementedError),
        ('word for a number', lambda: read(
            '[Interpolant]\nmethod = inv\nnum_neighbs = four\n'), ValueError),
        ('word for a radius', lambda: read(
            '[Interpolant]\nmethod = rbf\nradius = wide\n'), ValueError),
        ('word for a parameter', lambda: read(
            '[Interpolant]\nmethod = rbf\nparam = wide\n'), ValueError),
    ]
    history(case, method, proper, wrong)


@R38.scenario(quick=200)
def particle_sets(case):
    model = gen.traj_models(case, n=1, min_len=2)[0]
    tr = gen.real_traj(model)
    n = len(model)
    far = n + case.integer(0, 3)
    mask = np.ones(n + 1, dtype=bool)
    proper = {'values': lambda: dict(tr.as_dict()),
        'schema': tr.schema, 'point': lambda: [content(tr[0][k]) for k in sorted(
        tr[0])] if isinstance(tr[0], dict) else tr[0], 'id': tr.trajid}
    history(case, 'trajectory', proper, [
        ('unknown property', lambda: tr.nothing(), AttributeError),
        ('setting an unknown property', lambda: tr.set_nothing(1),
            AttributeError),
        ('point that is not there', lambda: tr.pos(far), IndexError),
        ('mask of another length', lambda: tr.pos(mask), IndexError),
        ('setting a point that is not there', lambda: tr.set_pos(np.ones(3), far),
            IndexError),
        ('setting two components of three', lambda: tr.set_pos(
            np.ones((n, 2)), slice(None)), ValueError),
        ('setting values of too many points', lambda: tr.set_velocity(
            np.ones((n + 1, 3)), slice(None)), ValueError),
    ])


@R38.scenario(quick=80)
def readers(case):
    from flowtracks import io
    from flowtracks.scene import read_dual_scene
    from flowtracks.sequence import read_sequence
    parts = gen.Chains(case, case.integer(3, 6), 1, rate=2., distinct=True)
    tmpl = gen.write_frames(case, parts.ptvis_text, list(parts.rows), 'ptv_is.%d')
    broken = gen.write_frames(case, lambda f: parts.ptvis_text(f), list(parts.rows),
        'ptv_is.%d')
    # One of them has a line that is none.
    with_rows = [f for f in parts.rows if len(parts.rows[f])]
    how = case.pick(['word', 'short'])
    hit = case.pick(with_rows) if with_rows else None
    if hit is not None:
        lines = open(broken % hit).read().splitlines()
        i = case.integer(1, len(lines) - 1)
        fields = lines[i].split()
        if how == 'word':
            fields[case.integer(0, 4)] = case.pick(['x', '1.2.3', '--', '0x'])
        else:
            del fields[-1]
        lines[i] = ' '.join(fields)
        with open(broken % hit, 'w') as f:
            f.write('\n'.join(lines) + '\n')
    d = case.tmp()
    models = gen.traj_models(case, n=4)
    def frames():
        from flowtracks.trajectory import ParticleSnapshot
        for t in range(3):
            yield ParticleSnapshot(case.rng.random((2, 3)), case.rng.random((2, 3)),
                time=t, trajid=np.arange(2))
    def failing(it):
        for n, x in enumerate(it):
            if n == 2:
                raise Failing
            yield x
    def write():
        io.save_particles_table(at('w.h5'), [gen.real_traj(m) for m in models])
        return io.trajectories_table(at('w.h5'))
    def at(name):
        return os.path.join(d, name)
    def conf(text):
        with open(at('c.cfg'), 'w') as f:
            f.write(text)
        return at('c.cfg')
    particle = '[Particle]\ndiameter = 1e-4\ndensity = 1000\n'
    scene = ('[Scene]\nparticles file = %s\ntracers file = %s\nfirst frame = 1\n'
        'last frame = 4\nframe rate = 500\n' % (at('p.h5'), at('t.h5')))
    for bare in ('p.h5', 't.h5'):
        gen.write_particles(at(bare), gen.traj_models(case, n=3))
    import tables
    f = tables.open_file(at('o.h5'), 'w')
    f.create_table('/', 'particle', np.dtype([('a', int)]))
    f.close()
    wrong_confs = [
        particle, scene, particle.replace('1000', 'heavy') + scene,
        particle + scene.replace('first frame = 1', 'first frame = one'),
        particle + scene.replace('frame rate = 500\n', ''),
        particle + scene.replace('frame rate = 500', 'frame rate = fast'),
        particle + scene.replace('last frame = 4\n', ''),
        particle.replace('diameter = 1e-4\n', '') + scene]
    def trajs(path, *args, **kw):
        return sorted((content(t) for t in io.trajectories(path, None, None, 500.,
            *args, **kw)), key=core.digest)
    wrong = [
        ('missing table', lambda: io.trajectories_table(at('no.h5')), OSError),
        ('missing mat file', lambda: io.trajectories_mat(at('no.mat'))),
        ('missing directory of npz', lambda: io.load_trajectories(at('none'))),
        ('missing single file', lambda: list(io.trajectories_ptvis(
            at('no.txt'))), OSError),
        ('missing in general', lambda: io.trajectories(at(case.pick(['no.h5',
            'no.mat', 'no/', 'no.txt'])), None, None, 500.)),
        ('unknown format', lambda: io.trajectories(tmpl, None, None, 500.,
            fmt='other')),
        ('frame data without configuration', lambda: io.read_frame_data(
            at('no.cfg'))),
        ('dual scene without configuration', lambda: read_dual_scene(
            at('no.cfg'))),
        ('sequence without configuration', lambda: read_sequence(
            at('no.cfg'))),
        ('file of tracers that is not there', lambda: read_dual_scene(conf(
            particle + scene.replace(at('t.h5'), at('none.h5'))))),
        ('table without particles', lambda: io.trajectories_table(at('o.h5'))),
        ('generator of frames that fails', lambda: io.save_frames_hdf(at('w.h5'),
            failing(frames())), Failing),
        ('generator of trajectories that fails', lambda: io.save_particles_table(
            at('w.h5'), failing(map(gen.real_traj, models))), Failing),
        ('directory that is not there', lambda: io.save_particles_table(
            at('none/a.h5'), [gen.real_traj(m) for m in gen.traj_models(case,
            n=2)])),
    ]
    wrong += [('wrong configuration %r' % text[:200], lambda text=text, reader=reader:
        reader(conf(text))) for text in wrong_confs for reader in
        (read_dual_scene, read_sequence)]
    if hit is not None:
        one = at('one.txt')
        text = [parts.ptvis_text(f).split('\n', 1)[1] for f in sorted(parts.rows)]
        text[sorted(parts.rows).index(hit)] = '\n'.join(lines[1:]) + '\n'
        with open(one, 'w') as f:
            f.write('\n'.join(text))
        wrong += 5*[('malformed line (%s)' % how, lambda: trajs(broken)),
            ('malformed line (%s) of a single file' % how, lambda: trajs(one))]
    history(case, 'readers', {'linked': lambda: trajs(tmpl), 'table': lambda:
        trajs(at('p.h5')), 'written': write, 'scene': lambda: read_dual_scene(conf(particle + scene)
        ).iter_frames()}, wrong)
    case.check(set(os.listdir(d)) <= {'c.cfg', 'p.h5',
        't.h5', 'o.h5', 'w.h5', 'one.txt'},
        'a missing file was made', found=os.listdir(d))


@R38.scenario(quick=50)
def sequences(case):
    from flowtracks.sequence import Sequence
    s, rng, sets, paths = seq.make(case)
    lo, hi = rng

    def fails(*args):
        raise Failing
    def select_fails(trajs):
        raise Failing
    def with_selector():
        s.set_particle_selector(select_fails)
        try:
            list(s)
        finally:
            s.set_particle_selector(lambda trajs: trajs)
    proper = {'pairs': lambda: iter(s), 'range': s.range,
        'subrange': lambda: s.iter_subrange(lo, min(lo + 2, hi))}
    calls = []
    def later(*args):
        calls.append(1)
        if len(calls) % 2 == 0:
            raise Failing
        return np.zeros(len(args[0].particles))
    wrong = [
        ('failing function', lambda: s.map_trajectories(fails), Failing),
        ('failing function with history', lambda: s.map_trajectories(fails,
            history=True), Failing),
        ('failing function of a subrange', lambda: s.map_trajectories(fails,
            subrange=(lo, hi)), Failing),
        ('failing selector', with_selector, Failing),
    ]
    history(case, 'sequence', proper, wrong)


@R38.scenario(quick=6, thorough=60)
def script(case):
    (pfile, parts, tfile, tracers), full, whole = scenes.dual_files(case)
    d = case.tmp()
    conf = os.path.join(d, 'c.cfg')
    text = ('[Particle]\ndensity = 1450\ndiameter = 5e-4\n[Scene]\n'
        'particles file = %s\ntracers file = %s\nfirst frame = %d\n'
        'last frame = %d\nframe rate = 500\n' % (pfile, tfile, full[0],
        full[1] - 1))
    how = case.pick(['method', 'config', 'param', 'neighbs', 'section', 'file'])
    with open(conf, 'w') as f:
        f.write(text.replace('[Particle]', '[Other]') if how == 'section' else
            text.replace(tfile, tfile + 'x') if how == 'file' else text)
    out = os.path.join(d, 'out.h5')
    args = [os.path.join(d, 'none.cfg') if how == 'config' else conf, out] + {
        'method': ['--method', 'other'], 'param': ['--param', 'much'],
        'neighbs': ['--neighbs', 'four']}.get(how, [])
    res = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(core.REPO,
        'scripts', 'analyse_fhdf.py')] + args, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, timeout=120, cwd=d)
    case.check(res.returncode != 0, 'the script went on with a wrong %s' % how,
        output=res.stdout.decode(errors='replace')[-800:])
    case.check(not os.path.exists(out), 'a refused analysis left a file')
    case.note(wrong=how)
    case.nontrivial(how, case.index)
