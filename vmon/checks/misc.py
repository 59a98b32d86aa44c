"""Configurations, graphs, docstrings."""
import os, re
import numpy as np

from .. import gen, match
from ..core import Property
from . import interp, io_read, seq as seqs

R27 = Property('R27',
    'Random sequences and interpolants saved to configuration files (new, or '
    'with other sections and older values) and read back; every parameter and '
    'what the objects compute are compared. Non-trivial: parameters other than '
    'the defaults.', ['file names are without line ends, and templates of frame '
    'files are valid'])
R33 = Property('R33',
    'Random samples and numbers of bins; densities are compared with counting, '
    'and the data of the drawn lines with densities and vectors given. '
    'Non-trivial: two or more bins have different densities.',
    ['samples are finite and not all equal'])
R36 = Property('R36',
    'The docstrings of the whole package and random ones are processed; the '
    'words must be the same, in order. Non-trivial: some line was changed.')


def write_cfg(case, cfg, path):
    with open(path, 'w') as f:
        cfg.write(f)


def number(case, x):
    """It may be a numpy one, such as of an array."""
    if isinstance(x, (bool, str)) or x is None or not case.chance(.3):
        return x
    return np.array([x])[0]


@R27.scenario(quick=120, thorough=2400)
def sequences(case):
    from configparser import ConfigParser
    from flowtracks.sequence import Sequence, read_sequence
    from flowtracks.particle import Particle
    lo = case.pick([0, 1, 10001, -5])
    rng = (number(case, lo), number(case, lo + case.integer(1, 9)))
    def path():
        d = case.tmp()
        name = case.pick(['a.h5', '50%_100%.h5', 'x%.h5', 'ptv_is.%d',
            'xuap.%d', 'trajAcc.%d', 'dir/'])
        return os.path.join(d, name)
    p, t = path(), path()
    frate = number(case, case.pick([500., 1., 1/3., 29.97, 1e4, 250]))
    part = Particle(number(case, case.pick([5e-4, 1.23456789e-6, .1])),
        number(case, case.pick([1450., 1000, 1/7.])))
    smooth = case.chance(.5)
    min_len = number(case, case.pick([0, 0, 2, 17]))
    seq = Sequence(rng, frate, part, p, t, smooth, min_len)
    cfg = ConfigParser()
    if case.chance(.4): # Values of another sequence and other things
        Sequence((5, 9), 3., Particle(1., 1.), 'q%d.h5', 'r%d.h5', not smooth,
            4).save_config(cfg)
        cfg.add_section('Other')
        cfg.set('Other', 'x', '1')
    seq.save_config(cfg)
    conf = case.path('seq.cfg')
    write_cfg(case, cfg, conf)
    case.note(range=rng, frate=frate, particles=os.path.basename(p),
        tracers=os.path.basename(t), smooth=smooth, min_len=min_len)

    over_s, over_l = case.pick([None, None, True, False]), \
        case.pick([None, None, 0, 6])
    got = read_sequence(conf, over_s, over_l)
    case.check(tuple(got.range()) == rng, 'range', got=got.range())
    case.equal([got.frate, got.part.diam, got.part.density],
        [frate, part.diam, part.density], 'frame rate, diameter, density')
    case.check(got.part_fname() == p, 'particles file', got=got.part_fname())
    case.check(got.part_format() == seq.part_format(), 'particles format')
    # The rest shows in what it would save.
    again, want = ConfigParser(), ConfigParser()
    got.save_config(again)
    Sequence(rng, float(frate), Particle(float(part.diam), float(part.density)),
        p, t, smooth if over_s is None else over_s,
        min_len if over_l is None else over_l).save_config(want)
    for section in want.sections():
        a, b = dict(again.items(section)), dict(want.items(section))
        case.check(a == b, 'section %s of the saved sequence' % section, got=a,
            want=b)
    case.check(want.get('Scene', 'tracers file') == t and
        want.get('Scene', 'particles file') == p, 'file names in the '
        'configuration')
    if cfg.has_section('Other'):
        case.check(cfg.get('Other', 'x') == '1', 'other sections')
    case.nontrivial(rng, frate, os.path.basename(p), os.path.basename(t), smooth,
        min_len)


@R27.scenario(quick=60, thorough=1200)
def same_trajectories(case):
    """
    A sequence read back gives the same frames, with smoothing and minimal length
    as saved, or else as given to the reading.
    """
    from configparser import ConfigParser
    from flowtracks.sequence import Sequence, read_sequence
    smooth = case.chance(.5)
    seq, rng, all_sets, paths = seqs.make(case, smooth=smooth, all_lengths=True)
    span = rng[1] - rng[0]
    min_len = case.pick([0, 2, 3]) if span > 2 else case.pick([0, 2])
    seq = Sequence(rng, seq.frate, seq.part, paths[0], paths[1], smooth, min_len)
    cfg = ConfigParser()
    if case.chance(.3):
        Sequence(rng, 1., seq.part, paths[0], paths[1], not smooth,
            9).save_config(cfg)
    seq.save_config(cfg)
    kwds = {}
    if case.chance(.25):
        cfg.remove_option('Scene', 'apply smoothing')
        smooth = False
    if case.chance(.25):
        cfg.remove_option('Scene', 'trajectory minimal length')
        min_len = 0
    if case.chance(.35):
        kwds['smooth'] = smooth = case.chance(.5)
    if case.chance(.35):
        kwds['traj_min_len'] = min_len = case.pick([0, 2])
    conf = case.path('seq.cfg')
    write_cfg(case, cfg, conf)
    case.note(options=sorted(cfg.options('Scene')), given=kwds)
    sets = [[m for m in ms if len(m) >= min_len] for ms in all_sets]
    calls = []
    with seqs.smoothing(calls):
        got = read_sequence(conf, **kwds)
        if smooth:
            sets[1] = seqs.moved(sets[1])
        match.same_traj_set(case, got.particle_trajectories(), sets[0],
            'particles')
        match.same_traj_set(case, got.tracer_trajectories(), sets[1], 'tracers')
        big = seqs.check_pairs(case, got, sets, rng[0], rng[1],
            'sequence read back')
    if big > 1:
        case.nontrivial(rng, kwds, [m.props for m in sets[0]])


@R27.scenario(quick=200, thorough=4000)
def interpolants(case):
    from configparser import ConfigParser
    from flowtracks import interpolation as ip
    sc = interp.Scene(case, few=False)
    method = case.pick(['inv', 'rbf', 'corrfun'])
    k = case.pick([None, 1, 4, 9])
    radius = case.pick([None, None, float(sc.size*1.01), float(sc.size/3.)])
    if method == 'inv':
        par = case.pick([None, 1, 1.5, 1/3.])
    elif method == 'rbf':
        par = case.pick([None, 30/sc.size**2, 1/3.])
    else:
        par = interp.corr_file(case, sc, 1)[0]
    k, radius, par = [number(case, x) for x in (k, radius, par)]
    orig = ip.interpolant(method, k, radius, par)
    cfg = ConfigParser()
    if case.chance(.4):
        ip.interpolant('inv', 3, 1.5, 7.).save_config(cfg)
        cfg.set('Interpolant', 'note', 'kept')
    orig.save_config(cfg)
    conf = case.path('interp.cfg')
    write_cfg(case, cfg, conf)
    got = ip.read_interpolant(conf)
    case.note(method=method, k=k, radius=radius,
        param=par if method != 'corrfun' else os.path.basename(par))
    case.check(type(got) is type(orig), 'type', got=type(got).__name__)
    case.check(got.num_neighbs() == orig.num_neighbs(), 'number of neighbours',
        got=got.num_neighbs(), want=orig.num_neighbs())
    case.check(got.radius() == orig.radius(), 'radius', got=got.radius(),
        want=orig.radius())
    res = []
    for x in (orig, got):
        x.set_scene(*sc.args())
        try:
            res.append(x.interpolate())
        except np.linalg.LinAlgError:
            res.append(None)
    if res[0] is None or res[1] is None:
        case.check(res[0] is res[1], 'one of them cannot interpolate')
    else:
        case.equal(res[1], res[0], 'interpolation by the one read back')
    # Written by hand, only what is not the default.
    brief = ConfigParser()
    brief.add_section('Interpolant')
    brief.set('Interpolant', 'method', method)
    for name, value in (('num_neighbs', k), ('radius', radius), ('param', par)):
        if value is not None:
            brief.set('Interpolant', name, str(value).replace('%', '%%'))
    write_cfg(case, brief, conf)
    hand = ip.read_interpolant(conf)
    case.check(type(hand) is type(orig) and hand.num_neighbs() ==
        orig.num_neighbs() and hand.radius() == orig.radius(), 'of a configuration '
        'without defaults', got=(hand.num_neighbs(), hand.radius()))
    hand.set_scene(*sc.args())
    if res[0] is not None:
        case.equal(hand.interpolate(), res[0], 'interpolation by that of a '
            'configuration without defaults')
    again = ConfigParser()
    got.save_config(again)
    a, b = dict(again.items('Interpolant')), dict(cfg.items('Interpolant'))
    case.check(b.pop('note', 'kept') == 'kept', 'other options')
    for d in (a, b): # 1 and 1.0
        if method != 'corrfun':
            d['param'] = float(d['param'])
    case.check(a == b, 'saved again', got=a, want=b)
    case.nontrivial(method, k, radius, str(par), sc.tracers)


# --------------------------------------------------------------------- graphs

def sample(case):
    n = case.pick([2, 3, 10, 50, 500]) if not case.big else 20000
    kind = case.pick(['normal', 'lognormal', 'int', 'uniform'])
    r = case.rng
    x = {'normal': lambda: r.normal(size=n), 'lognormal': lambda:
        r.lognormal(sigma=2, size=n), 'int': lambda: r.integers(-5, 30, n),
        'uniform': lambda: r.uniform(-1, 3, n)}[kind]()
    x = x * case.pick([1, 1, 10]) if kind == 'int' else x * 10.**case.integer(-6, 6)
    return x


def count(data, edges):
    data = np.sort(np.asarray(data, dtype=float))
    c = np.array([np.sum((data >= a) & (data < b)) for a, b in
        zip(edges[:-1], edges[1:])], dtype=float)
    c[-1] += np.sum(data == edges[-1])
    return c / len(data) / np.diff(edges)


def check_pdf(case, hist, edges, data, bins, log):
    used = data[data > 0] if log else data
    case.check(np.shape(hist) == (bins,) and np.shape(edges) == (bins + 1,),
        'shapes', got=[np.shape(hist), np.shape(edges)])
    case.check(np.diff(edges) > 0, 'bins are not increasing', got=edges)
    case.close([edges[0], edges[-1]], [used.min(), used.max()], 'limits of the '
        'bins', 1e-9, 0)
    case.check(edges[0] <= used.min() and edges[-1] >= used.max(), 'the bins do '
        'not cover the data', edges=edges, low=used.min(), high=used.max())
    steps = np.diff(np.log(edges)) if log else np.diff(edges)
    case.close(steps, np.full(bins, steps.mean()), 'widths of bins', 1e-6, 0)
    case.close(np.sum(hist*np.diff(edges)), 1., 'integral of the density', 1e-9)
    near = np.abs(used[:,None] - edges[None,1:-1]) < 1e-12*np.abs(used[:,None])
    if not near.any():
        case.close(hist, count(used, edges), 'density', 1e-9, 0)
    return np.unique(hist).size > 1


def usable(data, log):
    used = data[data > 0] if log else data
    return len(used) > 1 and used.max() - used.min() > 1e-6*np.abs(used).max()


@R33.scenario(quick=300, thorough=8000)
def densities(case):
    from flowtracks.graphics import pdf_bins
    data, bins, log = sample(case), case.integer(1, 40), case.chance(.5)
    if not usable(data, log):
        return
    case.watch(data)
    case.note(samples=len(data), bins=bins, log=log)
    hist, edges = pdf_bins(data, bins, log)
    if check_pdf(case, hist, edges, data, bins, log):
        case.nontrivial(data, bins, log)


@R33.scenario(quick=40, thorough=500)
def drawn_densities(case):
    from flowtracks.graphics import pdf_graph, generalized_histogram_disp
    import matplotlib.pyplot as pl
    data, bins, log = sample(case), case.integer(1, 20), case.chance(.5)
    if not usable(data, log):
        return
    density = case.chance(.5)
    pl.figure()
    if case.chance(.5):
        pdf_graph(data, bins, log, density)
        lines = pl.gca().lines
    else:
        from flowtracks.graphics import pdf_bins
        h, e = pdf_bins(data, bins, log)
        lines = generalized_histogram_disp(h, e[:-1], log, density)
    case.check(len(lines) == 1 and len(pl.gca().lines) == 1, 'lines drawn')
    x, y = lines[0].get_data()
    used = data[data > 0] if log else data
    edges = np.r_[x, used.max()]
    nt = check_pdf(case, y, edges, data, bins, log)
    case.check(pl.gca().get_xscale() == ('log' if log else 'linear'),
        'scale of x', got=pl.gca().get_xscale(), log=log)
    case.check(pl.gca().get_yscale() == ('log' if density else 'linear'),
        'scale of y', got=pl.gca().get_yscale(), log=density)
    case.note(samples=len(data), bins=bins, log=log, log_density=density)
    if nt:
        case.nontrivial(data, bins, log, density)


@R33.scenario(quick=40, thorough=500)
def drawn_vectors(case):
    from flowtracks.graphics import plot_vectors
    import matplotlib.pyplot as pl
    n = case.integer(2, 30)
    vecs, t = case.rng.normal(size=(n, 3)), np.sort(case.rng.normal(size=n))
    other = pl.figure()
    fig = pl.figure() if case.chance(.5) else None
    if fig is not None:
        pl.figure(other.number)
    kwds = {}
    if case.chance(.4):
        kwds['arrows'] = case.rng.normal(size=(n, 3))
    scale = case.pick([None, 2.5])
    if scale is not None:
        kwds['common_scale'] = scale
    ticks = case.pick([None, None, 2, 3, 5, 8, 11, 50])
    if ticks is not None:
        kwds['ytick_dens'] = ticks
        vecs *= 10.**case.integer(-3, 3)
    if case.chance(.4):
        from matplotlib.ticker import FormatStrFormatter
        kwds['yticks_format'] = FormatStrFormatter('<%.3e>')
    if case.chance(.4):
        kwds['unit_str'] = '[mm/s]'
    case.watch(vecs, t)
    got = plot_vectors(vecs, t, 'time', fig=fig, **kwds)
    if 'yticks_format' in kwds:
        got.canvas.draw()
    case.check(fig is None and got is not other or got is fig, 'figure')
    case.check(len(other.axes) == 0, 'drawn on another figure')
    case.check(len(got.axes) == 3, 'number of subplots', got=len(got.axes))
    for d, ax in enumerate(got.axes):
        case.check(len(ax.lines) == 1, 'lines in a subplot')
        x, y = ax.lines[0].get_data()
        case.equal(x, t, 'independent variable')
        case.equal(y, vecs[:,d], 'component %d' % d)
        case.check('XYZ'[d] in ax.get_ylabel() and
            kwds.get('unit_str', '') in ax.get_ylabel(), 'label',
            got=ax.get_ylabel())
        if ticks is not None:
            at = np.sort(ax.get_yticks())
            case.check(len(at) == ticks, 'number of ticks', got=at, want=ticks)
            span = np.ptp(vecs[:,d])
            case.close([at[0], at[-1]], [vecs[:,d].min(), vecs[:,d].max()],
                'outer ticks', 1e-9, 1e-9*span)
            case.close(np.diff(at), np.full(ticks - 1, span/(ticks - 1)),
                'equal distances of ticks', 1e-6, 1e-6*span)
        if 'yticks_format' in kwds:
            want = ['<%.3e>' % y for y in ax.get_yticks()]
            labels = [l.get_text() for l in ax.get_yticklabels()]
            case.check(all(l in want for l in labels if l) and any(labels),
                'tick labels with the format given', got=labels, want=want)
        if scale is not None and ticks is None: # Else ticks beyond may widen.
            case.close(ax.get_ylim(), vecs[:,d].mean() + np.r_[-scale, scale],
                'limits with common scale', 1e-9, 1e-9)
        if 'arrows' in kwds:
            q = [c for c in ax.collections if hasattr(c, 'U')]
            case.check(len(q) == 1, 'arrows')
            case.equal(np.asarray(q[0].V), kwds['arrows'][:,d], 'arrows')
            case.equal(np.asarray(q[0].U), np.zeros(n), 'arrows are vertical')
    case.check(got.axes[2].get_xlabel() == 'time' and
        got.axes[2].get_xaxis().get_visible(), 'label of the last subplot')
    case.note(vectors=n, **dict((k, True) for k in kwds))
    case.nontrivial(vecs, t)


# ------------------------------------------------------------------ docstrings

def words(lines):
    return re.findall(r'\w+', '\n'.join(lines))


def check_doc(case, lines, what):
    from flowtracks import format_docstrings as fd
    out = list(lines)
    fd.parse_docstring(None, 'function', what, None, None, out)
    case.check(words(out) == words(lines), 'words of the docstring of ' + what,
        got=out, want=lines)
    
    # Marked: the title of a section, and the names defined in it.
    want, start = [], True
    for line in lines:
        title = re.match(r'\s*(\w+):', line)
        names = re.match(r'(\w+(?:,\s*\w+)*)\s+-\s+.', line)
        if line.strip() == '':
            start = True
        elif start and title:
            want.append('*' + title.group(1) + '*')
            start = False
        elif names:
            want.append('``' + names.group(1) + '``')
            start = False
        else:
            start = False
    got = re.findall(r'^(\*\w+\*)$|^\* (``.+?``): ', '\n'.join(out), re.M)
    case.check([a or b for a, b in got] == want, 'sections and names marked in '
        'the docstring of ' + what, got=got, want=want)
    # Lines that follow a definition belong to its item.
    names = re.compile(r'\w+(?:,\s*\w+)*\s+-\s+.')
    start, item, texts = True, False, []
    for line in lines:
        if line.strip() == '':
            start, item = True, False
        elif start and re.match(r'\s*\w+:', line):
            start = False
            rest = line.split(':', 1)[1].strip()
            texts += [(rest, False)] if rest else []
        elif names.match(line):
            start, item = False, True
        else:
            start = False
            texts.append((line.strip(), item))
    at = 0
    for text, item in texts:
        while at < len(out) and out[at].strip() != text:
            at += 1
        case.check(at < len(out), 'a line of the docstring of ' + what, got=out,
            line=text)
        case.check((out[at][:1] == ' ') == item, 'lines of an item are indented, '
            'others are not, in the docstring of ' + what, got=out, line=text)
        at += 1
    case.count('docstrings')
    return out != list(lines)


@R36.scenario(quick=12, thorough=12, floor=1)
def package(case):
    import inspect, importlib
    names = ['analysis', 'an_scene', 'graphics', 'interpolation', 'io', 'pairs',
        'particle', 'scene', 'sequence', 'smoothing', 'trajectory',
        'format_docstrings']
    name = names[case.index % len(names)]
    mod = importlib.import_module('flowtracks.' + name)
    objs = [mod] + [o for o in vars(mod).values() if (inspect.isclass(o) or
        inspect.isfunction(o)) and o.__module__ == mod.__name__]
    for o in list(objs):
        if inspect.isclass(o):
            objs.extend(f for f in vars(o).values() if inspect.isfunction(f))
    changed = 0
    for o in objs:
        doc = inspect.getdoc(o)
        if doc:
            changed += check_doc(case, doc.split('\n') + [''],
                getattr(o, '__name__', '?'))
    case.note(module=name, changed=changed)
    if changed:
        case.nontrivial(name)


@R36.scenario(quick=150, thorough=3000)
def random_ones(case):
    vocab = ['pos', 'an array', '(n,3)', 'the', 'frame', 'x, y', 'tracer', 'of',
        ':class:`Scene`', '- a thing', 'Note', '1.5', 'radius']
    lines = []
    for _ in range(case.integer(1, 14)):
        text = ' '.join(case.pick(vocab) for _ in range(case.integer(1, 6)))
        lines.append(case.pick(['', '', text, text, '    ' + text,
            'Arguments:', 'Returns: ' + text, 'name - ' + text,
            'a, b - ' + text, '* ' + text]))
    if check_doc(case, lines, 'random text'):
        case.nontrivial(lines)
    case.note(lines=lines)


@R36.scenario(quick=1, thorough=1, floor=0)
def extension(case):
    """What Sphinx loads."""
    from flowtracks import format_docstrings as fd
    made = []
    class App(object):
        def connect(self, event, func, *args, **kwds):
            made.append((event, func))
    fd.setup(App())
    funcs = [f for e, f in made if e == 'autodoc-process-docstring']
    case.check(len(funcs) == 1, 'connected to the event', got=made)
    lines = ['Arguments:', 'pos - of the particle', '']
    funcs[0](None, 'function', 'name', None, None, lines)
    case.check('*Arguments*' in lines, 'the one connected', got=lines)
    case.nontrivial('extension')
