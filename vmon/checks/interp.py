"""Interpolation: neighbours, the three methods, derivatives, recorded scenes."""
import itertools, os
import numpy as np

from .. import gen
from ..core import Property

PRE = ['tracers are at distinct positions, none of them (to within rounding) on '
    'the search radius or at equal distances from an interpolation point',
    'a point at the position of a tracer does not use that tracer']

R21 = Property('R21',
    'Random tracers, points (some of them at tracers\' positions), numbers of '
    'neighbours (also more than there are), radii and companions; selected '
    'neighbours and distances, in a recorded scene and outside of it, are '
    'compared with a brute-force search. Non-trivial: some tracer was not used, '
    'and some point had a companion, a coincident tracer or few neighbours.', PRE)
R22 = Property('R22',
    'The scenes of R21, with data of 1 to 4 components, interpolated by inverse '
    'distance weighting of any power, in a recorded scene and by call; results '
    'are compared with the weighted mean over the brute-force neighbours and '
    'with the bounds of their data. Non-trivial: two or more points with two or '
    'more neighbours.', PRE)
R23 = Property('R23',
    'The scenes of R21 interpolated by radial basis functions, compared with a '
    'dense solution over the brute-force neighbours, and with the data when the '
    'points approach tracers. Non-trivial: two or more points with two or more '
    'neighbours.', PRE + ['the kernel matrix is not near singular (condition '
    'number below 1e7)'])
R24 = Property('R24',
    'The scenes of R21 interpolated with a correlation function from a file '
    '(one for all components or one for each), compared with the weighted mean '
    'over the brute-force neighbours. Non-trivial: two or more points with two '
    'or more neighbours in different bins.', PRE + ['the bins start at 0, and '
    'the weights of a point\'s neighbours do not cancel'])
R25 = Property('R25',
    'Random histories on one interpolant (whole scenes, only positions, only '
    'points, only data, trimming, temporary selections, calls outside of the '
    'scene, frames without tracers), each result compared with brute force and '
    'with a new object to which the current scene was given. Non-trivial: three '
    'or more changes of the scene and two or more results.', PRE)
R26 = Property('R26',
    'The scenes of R21; derivatives by inverse distance weighting are compared '
    'with complex-step differentiation of the brute-force formula, those of the '
    'other methods with the difference quotient of brute-force results. '
    'Non-trivial: two or more points with two or more neighbours.', PRE)


class Scene(object):
    """Random tracers, interpolation points, data and companions."""
    def __init__(self, case, n=None, m=None, d=None, comp=None, few=True):
        r = case.rng
        if n is None:
            n = case.pick([1, 2, 3, 5, 8, 12, 20, 40] if few else [8, 12, 20, 40])
            if case.big:
                n = case.integer(150, 700)
        self.size = 10.**case.integer(-3, 1)
        self.shift = r.uniform(-3, 3, 3)*self.size*case.pick([0, 1])
        self.tracers = r.uniform(-1, 1, (n, 3))*self.size + self.shift
        self.integral = case.chance(.05) # e.g. voxels, or rounded millimetres
        if self.integral:
            self.size = 1000.
            self.tracers = r.integers(-1000, 1000, (n, 3))
        if case.chance(.2):
            self.tracers[:,2] = 0   # a plane, as in the repository's tests
        self.set_points(case, m, comp)
        self.set_data(case, d)

    def set_points(self, case, m=None, comp=None):
        r, n = case.rng, len(self.tracers)
        if m is None:
            m = case.pick([1, 2, 3, 6, 10])
            if case.big and case.chance(.5):
                m = case.integer(60, 300)
        self.points = r.uniform(-1, 1, (m, 3))*self.size + self.shift
        if case.chance(.3) and n > 1: # Clusters, and points far away.
            self.points[::2] = self.tracers[r.integers(0, n, len(self.points[::2]))]\
                + r.normal(size=self.points[::2].shape)*self.size*.01
        if case.chance(.15): # Almost at a tracer
            i = case.integer(0, m - 1)
            self.points[i] = self.tracers[case.integer(0, n - 1)] \
                + r.normal(size=3)*self.size*10.**case.integer(-7, -4)
        if case.chance(.3) and n > 1:
            for i in range(0, m, 2):
                self.points[i] = self.tracers[case.integer(0, n - 1)]
        if self.integral and case.chance(.5):
            self.points = np.rint(self.points).astype(int)
        self.comp = None
        if comp if comp is not None else case.chance(.5):
            self.comp = r.integers(-1, n, m)
            if case.chance(.5): # Usually, they are close.
                dists = self.dists()
                for i in range(m):
                    if self.comp[i] >= 0:
                        self.comp[i] = np.argmin(dists[i])

    def set_data(self, case, d=None):
        if d is None:
            d = case.pick([1, 2, 3, 3, 3, 4])
        self.data = case.rng.normal(size=(len(self.tracers), d)) \
            * 10.**case.integer(-2, 2)
        if case.chance(.08):
            self.data = case.rng.integers(-50, 50, self.data.shape)

    def dists(self):
        out = np.zeros((len(self.points), len(self.tracers)))
        for i, p in enumerate(self.points):
            out[i] = np.sqrt(((p - self.tracers)**2).sum(axis=1))
        return out

    def args(self):
        return [np.copy(self.tracers), np.copy(self.points), np.copy(self.data),
            None if self.comp is None else np.copy(self.comp)]


def neighbours(sc, k=None, radius=None, points=None):
    """Brute force: for each point, the indices from the nearest on."""
    out = []
    for i, p in enumerate(sc.points if points is None else points):
        d = np.sqrt(((sc.tracers - p)**2).sum(axis=1))
        cand = [j for j in range(len(d)) if d[j] > 0
            and (sc.comp is None or sc.comp[i] != j)
            and (radius is None or d[j] < radius)]
        cand.sort(key=lambda j: d[j])
        out.append(cand if k is None else cand[:k])
    return out


def unclear(sc, k, radius, points=None):
    """The selection depends on rounding."""
    for i, p in enumerate(sc.points if points is None else points):
        d = np.sort(np.sqrt(((sc.tracers - p)**2).sum(axis=1)))
        if np.any(np.diff(d) <= 1e-9*d.max()) and len(d) > 1:
            return True
        if radius is not None and np.any(np.abs(d - radius) < 1e-9*radius):
            return True
        if np.any((d > 0) & (d < 1e-9*sc.size)):
            return True
    return False


def pick_radius(case, sc):
    d = sc.dists()
    return float(np.quantile(d, case.rng.uniform(.2, 1)))*1.0001 \
        if case.chance(.8) else float(d.max()*2)


def ref_inv(sc, neighbs, par, points=None):
    pts = sc.points if points is None else points
    out = np.full((len(pts), sc.data.shape[1]), np.nan)
    for i, js in enumerate(neighbs):
        if len(js):
            diff = sc.tracers[js] - pts[i]
            r = np.sqrt((diff**2).sum(axis=1))
            w = (r / np.abs(r).min())**-par
            out[i] = (w[:,None]*sc.data[js]).sum(axis=0) / w.sum()
    return out


def ref_rbf(sc, neighbs, eps, points=None):
    """Also returns the worst condition number."""
    pts = sc.points if points is None else points
    out = np.full((len(pts), sc.data.shape[1]), np.nan)
    cond = 1.
    for i, js in enumerate(neighbs):
        if len(js):
            tr = sc.tracers[js]
            K = np.exp(-eps*((tr[:,None] - tr[None])**2).sum(axis=2))
            cond = max(cond, np.linalg.cond(K))
            c = np.linalg.solve(K, sc.data[js])
            out[i] = np.exp(-eps*((tr - pts[i])**2).sum(axis=1)).dot(c)
    return out, cond


def ref_corr(sc, neighbs, corrs, bins, points=None):
    """Also returns the smallest sum of weights over the sum of sizes."""
    pts = sc.points if points is None else points
    d = sc.data.shape[1]
    out = np.full((len(pts), d), np.nan)
    worst = 1.
    for i, js in enumerate(neighbs):
        if len(js):
            num, den, size = np.zeros(d), np.zeros(d), np.zeros(d)
            for j in js:
                r = np.sqrt(((sc.tracers[j] - pts[i])**2).sum())
                b = max(x for x in range(len(bins)) if bins[x] <= r)
                w = np.broadcast_to(corrs[b], d)
                num += w*sc.data[j]
                den += w
                size += np.abs(w)
            out[i] = num / den
            worst = min(worst, np.min(np.abs(den)/size))
    return out, worst


def tol(sc):
    return 1e-9*np.abs(sc.data).max()


def have(neighbs):
    return np.array([len(js) > 0 for js in neighbs], dtype=bool)


def interesting(neighbs):
    return sum(len(js) > 1 for js in neighbs) > 1


def describe(case, sc, **kw):
    case.note(tracers=len(sc.tracers), points=len(sc.points),
        components=sc.data.shape[1], size=sc.size,
        companions=None if sc.comp is None else sc.comp, **kw)


# ------------------------------------------------------- objects and scenes

def used(case, ipl, sc):
    """The interpolant may have worked on other scenes before."""
    if case.big or case.chance(.6): # (Crowded ones take their time.)
        return ipl
    for _ in range(case.integer(1, 2)):
        same = case.chance(.5)
        other = Scene(case, n=len(sc.tracers) if same else None,
            m=len(sc.points) if same else None, few=False, d=sc.data.shape[1])
        f = sc.size / other.size
        other.tracers, other.points = other.tracers*f, other.points*f
        try:
            if case.chance(.3):
                ipl(*other.args())
                continue
            ipl.set_scene(*other.args())
            for _ in range(case.integer(0, 2)):
                getattr(ipl, case.pick(['interpolate', 'eulerian_jacobian',
                    'current_dists', 'current_active_neighbs']))()
        except np.linalg.LinAlgError:
            pass # The other scene is not what is judged.
    case.count('scenes before that which is judged')
    return ipl


def put(case, ipl, sc, args):
    """
    Records the scene, at once or by steps from another one. After that, it may be
    interpolated as well.
    """
    tr, pt, data, comp = args
    r, (n, m) = case.rng, (len(tr), len(pt))
    how = case.pick(['scene', 'scene', 'scene', 'parts', 'data', 'no data', 'trim',
        'points', 'positions'])
    def peek(chance=.5):
        if case.chance(chance):
            try:
                getattr(ipl, case.pick(['interpolate', 'current_dists',
                    'current_active_neighbs'] + ['eulerian_jacobian']*(not
                    case.big)))()
            except np.linalg.LinAlgError:
                pass
    if how == 'parts':
        ipl.set_field_positions(tr)
        if comp is None and case.chance(.5):
            ipl.set_interp_points(pt)
        else:
            ipl.set_interp_points(pt, comp)
        ipl.set_data_on_current_field(data)
    elif how == 'data':
        ipl.set_scene(tr, pt, r.normal(size=data.shape), comp)
        peek()
        ipl.set_data_on_current_field(data)
    elif how == 'no data':
        ipl.set_scene(tr, pt, companionship=comp)
        ipl.set_data_on_current_field(data)
    elif how == 'trim' and m:
        which = np.zeros(m + case.integer(1, 4), dtype=bool)
        which[r.permutation(len(which))[:len(which) - m]] = True
        more = np.empty((len(which), 3), dtype=pt.dtype)
        more[~which] = pt
        more[which] = (r.uniform(-1, 1, (which.sum(), 3))*sc.size + sc.shift)
        comps = None
        if comp is not None:
            comps = r.integers(-1, n, len(which))
            comps[~which] = comp
        ipl.set_scene(tr, more, data, comps)
        peek()
        ipl.trim_points(which)
    elif how == 'points':
        ipl.set_scene(tr, r.uniform(-1, 1, (m, 3))*sc.size + sc.shift, data)
        peek()
        ipl.set_interp_points(pt, comp)
    elif how == 'positions':
        ipl.set_scene(r.uniform(-1, 1, (n, 3))*sc.size + sc.shift, pt, data, comp)
        peek()
        ipl.set_field_positions(tr)
    else:
        ipl.set_scene(tr, pt, data, comp)
    peek(.3)
    case.count('scenes recorded by ' + how)


# ----------------------------------------------------------------- neighbours

@R21.scenario(quick=1500, thorough=30000)
def selection(case):
    from flowtracks import interpolation as ip
    sc = Scene(case)
    k = case.pick([1, 2, 4, 4, 7, 50])
    radius = pick_radius(case, sc) if case.chance(.4) else None
    describe(case, sc, k=k, radius=radius)
    tr, pt, data, comp = sc.args()
    case.watch(tr, pt, data, comp)
    if unclear(sc, k, radius):
        return
    d = sc.dists()
    want_all = neighbours(sc, None if radius is not None else k, radius)
    kwds = {}
    if radius is None or case.chance(.5):
        kwds['num_neighbs'] = k
    if radius is not None:
        kwds['radius'] = radius
    if comp is not None or case.chance(.5):
        kwds['companionship'] = comp
    dists, use = ip.select_neighbs(tr, pt, **kwds)
    case.check(use.dtype == bool, 'selection is not boolean')
    want = np.zeros(d.shape, dtype=bool)
    for i, js in enumerate(want_all):
        want[i,js] = True
    case.equal(use, want, 'selected neighbours')
    case.close(dists[want], d[want], 'distances of selected neighbours', 1e-12,
        1e-14*sc.size)
    case.count('neighbours compared', want.sum())

    method = case.pick(['inv', 'rbf'])
    ipl = ip.interpolant(method, k, radius=radius)
    case.check(ipl.num_neighbs() == k and ipl.radius() == radius,
        'parameters of the interpolant')
    if case.chance(.7):
        ipl.set_scene(tr, pt, data, comp)
    else:
        put(case, used(case, ipl, sc), sc, (tr, pt, data, comp))
    want_near = neighbours(sc, k, radius)
    asked = [('act', ipl.current_active_neighbs), ('dists', ipl.current_dists),
        ('rel', ipl.current_relative_positions)]
    told = {what: asked[i][1]() for i in case.rng.permutation(3)
        for what in [asked[i][0]]}
    case.check(told['rel'] is not None, 'no relative positions in a scene that '
        'was just set')
    act, ad, rel = told['act'], told['dists'], told['rel']
    case.check(act.shape == ad.shape and len(act) == len(pt)
        and act.shape[1] <= k, 'shapes', neighbours=act.shape, dists=ad.shape)
    n = len(sc.tracers)
    case.check(rel.shape == act.shape + (3,), 'shape of relative positions',
        got=rel.shape)
    for i, js in enumerate(want_near):
        got = act[i][act[i] < n]
        case.check(sorted(got.tolist()) == sorted(js), 'neighbours of point %d of '
            'the scene' % i, got=got, want=js)
        for c in range(act.shape[1]):
            j = act[i,c]
            case.check(0 <= j <= n, 'neighbour index', got=j)
            if j < n:
                case.close(ad[i,c], d[i,j], 'distance to a neighbour', 1e-12,
                    1e-14*sc.size)
                case.close(rel[i,c], sc.tracers[j] - sc.points[i], 'relative '
                    'position of a neighbour', 1e-12, 1e-14*sc.size)
            else:
                case.check(ad[i,c] == np.inf, 'distance to a missing neighbour',
                    got=ad[i,c])
        case.count('neighbours compared', len(js))
    case.equal(ipl.field_positions(), sc.tracers, 'recorded positions')
    case.equal(ipl.current_data(), sc.data, 'recorded data')

    # Distances, without a radius
    nd = ipl.neighb_dists(tr, pt, comp)
    near = neighbours(sc, k)
    case.check(nd.shape == (len(pt), min(n, k)), 'shape of distances',
        got=nd.shape)
    for i, js in enumerate(near):
        exp = np.zeros(nd.shape[1])
        exp[:len(js)] = d[i,js]
        case.close(np.sort(nd[i]), np.sort(exp), 'distances of point %d' % i,
            1e-12, 1e-14*sc.size)
    if not want.all() and (sc.comp is not None or (d == 0).any() or any(
            len(js) < k for js in want_near)):
        case.nontrivial(sc.tracers, sc.points, sc.comp, k, radius)


@R21.scenario(quick=80, thorough=2000)
def lattice(case):
    """Equal distances: any of the nearest ones may be taken."""
    from flowtracks import interpolation as ip
    g = np.arange(case.integer(2, 4))*.5
    tr = np.array(list(itertools.product(g, g, g)))
    tr = tr[case.rng.permutation(len(tr))]
    pt = tr[case.rng.integers(0, len(tr), 4)] + case.pick([0., .25, .125])
    k = case.integer(1, 9)
    comp = case.rng.integers(-1, len(tr), 4) if case.chance(.5) else None
    d = np.sqrt(((tr[None] - pt[:,None])**2).sum(axis=2))
    dd = d.copy()
    dd[dd == 0] = np.inf
    if comp is not None:
        for i, c in enumerate(comp):
            if c >= 0:
                dd[i,c] = np.inf
    dd.sort(axis=1)
    dists, use = ip.select_neighbs(tr, pt, num_neighbs=k, companionship=comp)
    ipl = ip.interpolant('inv', k)
    ipl.set_scene(tr, pt, np.zeros((len(tr), 3)), comp)
    act = ipl.current_active_neighbs()
    for i in range(4):
        want = dd[i,:k][np.isfinite(dd[i,:k])]
        case.close(np.sort(d[i,use[i]]), want, 'distances of neighbours')
        got = act[i][act[i] < len(tr)]
        case.check(len(set(got.tolist())) == len(got), 'a neighbour taken twice')
        case.close(np.sort(d[i,got]), want, 'distances of neighbours in scene')
        if comp is not None:
            case.check(comp[i] not in got.tolist() and (comp[i] < 0 or
                not use[i,comp[i]]), 'a companion was used')
    case.note(tracers=len(tr), k=k, points=pt)
    case.nontrivial(tr, pt, k, comp)


# -------------------------------------------------------------------- methods

def both_ways(case, ipl, sc, want_scene, want_call, what, rtol, atol,
        has_scene, has_call, ref=None):
    """
    The recorded scene and the call. Also, if ``ref`` is given, a subset of the
    selected neighbours, for which it gives the results and their tolerance (or
    None, if they are not clear).
    """
    tr, pt, data, comp = sc.args()
    case.watch(tr, pt, data, comp)
    used(case, ipl, sc)
    def by_scene():
        put(case, ipl, sc, (tr, pt, data, comp))
        got = ipl.interpolate()
        case.check(got.shape == want_scene.shape, what + ': shape in scene',
            got=got.shape, want=want_scene.shape)
        case.close(got[has_scene], want_scene[has_scene], what + ' in scene',
            rtol, atol)
        case.count('interpolated points compared', has_scene.sum())
        return got
    def by_call():
        got = ipl(tr, pt, data, comp)
        case.check(got.shape == want_call.shape, what + ': shape by call',
            got=got.shape, want=want_call.shape)
        case.close(got[has_call], want_call[has_call], what + ' by call', rtol,
            atol)
        case.count('interpolated points compared', has_call.sum())
    if case.chance(.5):
        by_scene()
        by_call()
    else:
        by_call()
        by_scene()
    if ref is None or len(sc.points) == 0 or case.chance(.5):
        return ipl
    act = ipl.current_active_neighbs()
    sub, n = np.copy(act), len(sc.tracers)
    which = case.rng.permutation(len(sub))[:case.pick([1, 1, 2, len(sub)])]
    for i in which:
        real = np.nonzero(sub[i] < n)[0]
        drop = case.pick([real[:1], real[1:2], real[-1:],
            real[case.rng.random(len(real)) < .5]])
        sub[i,drop] = n
    js = [[j for j in row if j < n] for row in sub]
    want, near = ref(js), have(js)
    if want is None:
        return ipl
    keep = sub.copy()
    got = ipl.interpolate(sub)
    case.equal(sub, keep, what + ' of a subset: argument')
    case.check(got.shape == want.shape, what + ' of a subset: shape',
        got=got.shape)
    case.close(got[near], want[near], what + ' of a subset', rtol, atol)
    case.count('interpolated points compared', near.sum())
    case.close(ipl.interpolate()[has_scene], want_scene[has_scene],
        what + ' in scene, after a subset', rtol, atol)
    return ipl


@R22.scenario(quick=2000, thorough=40000)
def inverse_distance(case):
    from flowtracks import interpolation as ip
    sc = Scene(case)
    k = case.pick([None, 1, 2, 4, 7, 50])
    radius = pick_radius(case, sc) if case.chance(.35) else None
    par = case.pick([None, 1, 2, 1.5, .1, 3])
    describe(case, sc, k=k, radius=radius, power=par)
    keff, peff = k or 4, 1 if par is None else par
    if unclear(sc, keff, radius):
        return
    if case.chance(.15): # The same data everywhere
        sc.data[:] = sc.data[0]
    nb = neighbours(sc, keff, radius)
    want = ref_inv(sc, nb, peff)
    ipl = ip.interpolant('inv', k, radius, par) if case.chance(.5) else \
        ip.InverseDistanceWeighter(k, radius, par)
    both_ways(case, ipl, sc, want, want, 'inverse distance', 1e-9, tol(sc),
        have(nb), have(nb), lambda js: ref_inv(sc, js, peff))
    got = ipl.interpolate()
    for i, js in enumerate(nb):
        if len(js):
            lo, hi = sc.data[js].min(axis=0), sc.data[js].max(axis=0)
            case.check((got[i] >= lo - tol(sc)) & (got[i] <= hi + tol(sc)),
                'outside of the neighbours\' data', got=got[i], lo=lo, hi=hi)
    if sc.data.shape[1] == 1 and len(sc.tracers) > 1:
        ipl.set_data_on_current_field(sc.data[:,0].copy())
        case.equal(ipl.interpolate(), got, 'one-dimensional data')
    if sc.data.shape[1] > 1 and len(sc.tracers) == 1:
        ipl.set_data_on_current_field(sc.data[0].copy())
        case.equal(ipl.interpolate(), got, 'one-dimensional data of one tracer')
    if interesting(nb):
        case.nontrivial(sc.tracers, sc.points, sc.data, keff, radius, peff)


def rbf_scene(case):
    sc = Scene(case)
    spacing = 2*sc.size / len(sc.tracers)**(1/3.)
    eps = case.rng.uniform(.5, 4) / spacing**2
    return sc, float(eps)


@R23.scenario(quick=1500, thorough=30000)
def radial_basis(case):
    from flowtracks import interpolation as ip
    sc, eps = rbf_scene(case)
    k = case.pick([None, 1, 2, 4, 7, 50])
    radius = pick_radius(case, sc) if case.chance(.35) else None
    if case.chance(.1) and not sc.integral: # default parameter, millimetres
        eps, s = None, 1e-2 / sc.size
        sc.size *= s
        sc.tracers *= s
        sc.points = sc.points * s
    describe(case, sc, k=k, radius=radius, epsilon=eps)
    if radius is not None and eps is None:
        radius = None
    keff = k or 7
    if unclear(sc, keff, radius):
        return
    nb = neighbours(sc, keff, radius)
    nb_call = neighbours(sc, keff if radius is None else None, radius)
    want, c1 = ref_rbf(sc, nb, 1e5 if eps is None else eps)
    want_call, c2 = ref_rbf(sc, nb_call, 1e5 if eps is None else eps)
    if max(c1, c2) > 1e7:
        return
    ipl = ip.interpolant('rbf', k, radius, eps)
    both_ways(case, ipl, sc, want, want_call, 'radial basis functions', 1e-7,
        1e-6*np.abs(sc.data).max(), have(nb), have(nb_call),
        lambda js: ref_rbf(sc, js, 1e5 if eps is None else eps)[0])
    if interesting(nb):
        case.nontrivial(sc.tracers, sc.points, sc.data, keff, radius, eps)


@R23.scenario(quick=150, thorough=3000)
def exact_at_tracers(case):
    """Close to a tracer, the result is close to its data. So also for IDW."""
    from flowtracks import interpolation as ip
    sc, eps = rbf_scene(case)
    m = min(len(sc.tracers), 6)
    sc.comp = None
    which = case.rng.permutation(len(sc.tracers))[:m]
    step = case.rng.normal(size=(m, 3))
    step *= 1e-8*sc.size / np.linalg.norm(step, axis=1)[:,None]
    sc.points = sc.tracers[which] + step
    describe(case, sc, epsilon=eps)
    k = case.pick([1, 4, 7])
    d = np.sort(sc.dists(), axis=1)
    if len(sc.tracers) > 1 and d[:,1].min() < 1e-2*sc.size:
        return
    nb = neighbours(sc, k)
    cond = ref_rbf(sc, nb, eps)[1]
    if cond > 1e4 or any(js[0] != w for js, w in zip(nb, which)):
        return
    scale = np.abs(sc.data).max()
    for method, par in (('rbf', eps), ('inv', 2)):
        ipl = ip.interpolant(method, k, param=par)
        ipl.set_scene(*sc.args())
        case.close(ipl.interpolate(), sc.data[which], method + ' at tracers', 0,
            1e-3*scale)
        case.close(ipl(*sc.args()), sc.data[which], method + ' at tracers, by '
            'call', 0, 1e-3*scale)
    if m > 1:
        case.nontrivial(sc.tracers, which, k, eps)


def corr_file(case, sc, d):
    nb = case.integer(1, 12)
    top = 4*sc.size
    bins = np.r_[0, np.sort(case.rng.uniform(0, top, nb - 1))]
    shape = case.pick([(nb,), (nb, 1), (nb, d)])
    corrs = case.rng.uniform(.05, 1, shape)
    if case.chance(.2):
        corrs[-1] *= -.05
    path = case.path(case.pick(['corr.npz', '100% corr.npz']))
    if case.chance(.2): # The file had other values before.
        from flowtracks.interpolation import interpolant
        np.savez(path, corrs=1 + corrs, bins=bins*.5)
        interpolant('corrfun', 3, param=path)
    # Arrays may be stored by columns, in other types and orders of bytes.
    np.savez(path, corrs=case.pick([np.asarray, np.asarray, np.asfortranarray,
        lambda a: a.astype('>f8')])(corrs), bins=bins)
    return path, corrs.reshape(nb, -1), bins


@R24.scenario(quick=1200, thorough=24000)
def correlation_function(case):
    from flowtracks import interpolation as ip
    sc = Scene(case)
    k = case.pick([None, 1, 2, 4, 7, 50])
    radius = pick_radius(case, sc) if case.chance(.35) else None
    path, corrs, bins = corr_file(case, sc, sc.data.shape[1])
    describe(case, sc, k=k, radius=radius, corrs=corrs, bins=bins)
    keff = k or 4
    if unclear(sc, keff, radius) or np.abs(sc.dists().ravel()[:,None]
            - bins[1:]).min(initial=1) < 1e-9*sc.size:
        return
    nb = neighbours(sc, keff, radius)
    nb_call = neighbours(sc, keff if radius is None else None, radius)
    want, w1 = ref_corr(sc, nb, corrs, bins)
    want_call, w2 = ref_corr(sc, nb_call, corrs, bins)
    if min(w1, w2) < 1e-3:
        return
    def of_subset(js):
        res, worst = ref_corr(sc, js, corrs, bins)
        return res if worst > 1e-3 else None
    ipl = ip.interpolant('corrfun', k, radius, path)
    both_ways(case, ipl, sc, want, want_call, 'correlation function', 1e-9,
        10*tol(sc), have(nb), have(nb_call), of_subset)
    if interesting(nb) and len(bins) > 1:
        case.nontrivial(sc.tracers, sc.points, sc.data, keff, radius, corrs)


@R24.scenario(quick=150, thorough=3000)
def at_bin_starts(case):
    """Distances that are exactly where a bin starts belong to that bin."""
    from flowtracks import interpolation as ip
    unit = 2.**case.integer(-4, 3)
    m = case.integer(1, 4)
    pts = case.rng.integers(-8, 9, (m, 3))*unit*64
    nb = case.integer(2, 6)
    bins = np.r_[0, np.sort(case.rng.permutation(np.arange(1, 9))[:nb - 1])]*unit
    corrs = case.rng.uniform(.05, 1, nb)
    # Tracers along the axes, at whole numbers of units.
    steps = case.rng.permutation(np.arange(1, 9))[:case.integer(1, 6)]
    tr = []
    for j in steps:
        v = np.zeros(3)
        v[case.integer(0, 2)] = case.pick([-1, 1])*j*unit
        tr.append(pts[0] + v)
    pts = pts[:1]
    tr = np.array(tr)
    sc = Scene(case, n=len(tr), m=1)
    sc.tracers, sc.points, sc.comp, sc.size = tr, pts, None, unit
    k = case.integer(1, 7)
    path = case.path('corr.npz')
    np.savez(path, corrs=corrs, bins=bins)
    describe(case, sc, k=k, corrs=corrs, bins=bins)
    near = neighbours(sc, k)
    want, _ = ref_corr(sc, near, corrs[:,None], bins)
    ipl = ip.interpolant('corrfun', k, param=path)
    both_ways(case, ipl, sc, want, want, 'correlation function', 1e-9, tol(sc),
        have(near), have(near))
    if len(tr) > 1:
        case.nontrivial(tr, pts, corrs, bins, k)


# ------------------------------------------------------------------- histories

def make_method(case, sc):
    """A factory of equal interpolants, a reference, and whether it is sound."""
    from flowtracks import interpolation as ip
    method = case.pick(['inv', 'inv', 'rbf', 'corrfun'])
    k = case.pick([1, 2, 4, 7])
    radius = 1.3*sc.size if case.chance(.3) else None
    if method == 'inv':
        par = case.pick([1, 2, 1.5])
        ref = lambda s, nb: ref_inv(s, nb, par)
    elif method == 'rbf':
        par = float(case.rng.uniform(20, 40) / sc.size**2)
        ref = lambda s, nb: ref_rbf(s, nb, par)[0]
    else:
        par, corrs, bins = corr_file(case, sc, 1)
        ref = lambda s, nb: ref_corr(s, nb, np.abs(corrs), bins)[0]
        np.savez(par, corrs=np.abs(corrs), bins=bins)
    new = lambda: ip.interpolant(method, k, radius, par)
    return method, k, radius, par, new, ref


@R25.scenario(quick=1500, thorough=30000)
def scene_histories(case):
    sc = Scene(case, few=case.chance(.3), d=None)
    method, k, radius, par, new, ref = make_method(case, sc)
    ipl = new()
    reuse, given = case.chance(.4), {}
    def give(name, arr):
        """An array for the interpolant. Or: the same one with new contents."""
        if arr is None:
            return None
        if reuse and name in given and given[name].shape == arr.shape \
                and given[name].dtype == arr.dtype:
            given[name][...] = arr
        else:
            given[name] = np.array(arr)
        return given[name]
    def scene_args():
        return [give('tracers', sc.tracers), give('points', sc.points),
            give('data', sc.data), give('companions', sc.comp)]
    ipl.set_scene(*scene_args())
    ops, changes, results = ['scene'], 0, 0
    empty = False
    for step in range(case.integer(4, 14)):
        op = case.pick(['scene', 'positions', 'points', 'data', 'data', 'trim',
            'subset', 'call', 'interpolate', 'interpolate', 'jacobian',
            'neighbours', 'no tracers'])
        what = '%s, step %d (%s)' % (method, step, op)
        if op == 'scene':
            old = sc.size
            sc = Scene(case, few=case.chance(.3))
            f = old / sc.size # Distances are of the method's scale.
            sc.size = old
            sc.tracers, sc.points = sc.tracers*f, sc.points*f
            if reuse and case.chance(.5): # as many as there were
                n = max(1, min(len(sc.tracers), len(given['tracers'])))
                sc.tracers, sc.data = sc.tracers[:n], sc.data[:n]
                if sc.comp is not None:
                    sc.comp[sc.comp >= n] = -1
            ipl.set_scene(*scene_args())
            empty = False
            changes += 1
        elif op == 'positions':
            n = len(sc.tracers) + (case.integer(0, 5) if case.chance(.5) else 0)
            if n == 0:
                continue
            sc.tracers = case.rng.uniform(-1, 1, (n, 3))*sc.size + sc.shift
            ipl.set_field_positions(give('tracers', sc.tracers))
            empty = False
            if n != len(sc.data) or case.chance(.3):
                sc.set_data(case)
                ipl.set_data_on_current_field(give('data', sc.data))
            changes += 1
        elif op == 'points':
            if empty:
                continue
            sc.set_points(case, len(sc.points) or None if case.chance(.4) else
                None)
            if sc.comp is None and case.chance(.5):
                ipl.set_interp_points(give('points', sc.points))
            else:
                ipl.set_interp_points(give('points', sc.points),
                    give('companions', sc.comp))
            changes += 1
        elif op == 'data':
            if empty:
                continue
            sc.set_data(case, sc.data.shape[1] if case.chance(.4) else None)
            ipl.set_data_on_current_field(give('data', sc.data))
            changes += 1
        elif op == 'trim':
            which = case.rng.random(len(sc.points)) < .3
            keep = which.copy()
            ipl.trim_points(which)
            case.equal(which, keep, what + ': argument')
            sc.points = sc.points[~which]
            if sc.comp is not None:
                sc.comp = sc.comp[~which]
            changes += 1
        elif op == 'subset':
            if empty or len(sc.points) == 0:
                continue
            act = ipl.current_active_neighbs()
            sub = act.copy()
            n = len(sc.tracers)
            for i in range(len(sub)): # leave out some of the neighbours
                real = np.nonzero(sub[i] < n)[0]
                for c in real[1:]:
                    if case.chance(.4):
                        sub[i,c] = n
            keep = sub.copy()
            got = ipl.interpolate(sub)
            case.equal(sub, keep, what + ': argument')
            js = [[j for j in row if j < n] for row in sub]
            if not unclear(sc, k, radius):
                h = have(js)
                want = ref(sc, js)
                case.close(got[h], want[h], what, 1e-6, 1e3*tol(sc))
        elif op == 'call':
            other = Scene(case, few=False)
            f = sc.size / other.size
            other.tracers, other.points = other.tracers*f, other.points*f
            if case.chance(.15): # Not tracked in that frame
                got = ipl(np.zeros((0, 3)), other.points, other.data[:0])
                case.equal(got, np.zeros((len(other.points),
                    other.data.shape[1])), what + ', no tracers')
            got = ipl(*other.args())
            if radius is None and not unclear(other, k, None):
                nb = neighbours(other, k)
                case.close(got, ref(other, nb), what, 1e-6, 1e3*tol(other))
        elif op == 'no tracers':
            if method != 'inv' and case.chance(.5):
                continue
            ipl.set_field_positions(np.zeros((0, 3)))
            empty = True
            sc.tracers, sc.data = sc.tracers[:0], sc.data[:0]
            sc.comp = None
            sc.points = case.rng.uniform(-1, 1, (3, 3))*sc.size
            ipl.set_scene(*scene_args())
            got = ipl.interpolate()
            case.equal(got, np.zeros((3, sc.data.shape[1])), what)
            changes += 1

        if op in ('interpolate', 'subset', 'call', 'trim') or case.chance(.4):
            got = ipl.interpolate()
            case.check(got.shape == (len(sc.points), sc.data.shape[1]),
                what + ': shape', got=got.shape)
            if empty:
                case.equal(got, np.zeros(got.shape), what)
                continue
            fresh = new()
            fresh.set_scene(*sc.args())
            case.close(got, fresh.interpolate(), what + ': other result than of a '
                'new object', 1e-9, tol(sc))
            if len(sc.points) and not unclear(sc, k, radius):
                nb = neighbours(sc, k, radius)
                h = have(nb)
                case.close(got[h], ref(sc, nb)[h], what + ': interpolation', 1e-6,
                    1e3*tol(sc))
            results += 1
            case.count('interpolated points compared', len(got))
        if empty:
            if case.chance(.5):
                told = [ipl.current_active_neighbs(), ipl.current_dists(),
                    ipl.current_relative_positions()]
                case.check(all(len(a) == len(sc.points) for a in told),
                    what + ': rows without tracers', got=list(map(len, told)))
                jac = ipl.eulerian_jacobian()
                case.equal(jac, np.zeros((len(sc.points), sc.data.shape[1], 3)),
                    what + ': derivatives without tracers')
                case.check((told[0] >= 0).all() and np.isinf(told[1]).all(),
                    what + ': neighbours without tracers', got=told)
            ops.append(op)
            continue
        if op == 'jacobian' and len(sc.points) and radius is None:
            local = ipl.interpolate() if case.chance(.5) else None
            fresh = new()
            fresh.set_scene(*sc.args())
            case.close(ipl.eulerian_jacobian(local), fresh.eulerian_jacobian(),
                what + ': derivatives', 1e-6, 1e4*tol(sc)/sc.size)
            results += 1
        if op == 'neighbours' and not unclear(sc, k, radius):
            asked = [ipl.current_active_neighbs, ipl.current_dists,
                ipl.current_relative_positions]
            told = {i: asked[i]() for i in case.rng.permutation(3)}
            act, d, rel = told[0], told[1], told[2]
            for i, js in enumerate(neighbours(sc, k, radius)):
                real = act[i] < len(sc.tracers)
                case.close(rel[i][real], sc.tracers[act[i][real]] - sc.points[i],
                    what + ': relative positions', 1e-12, 1e-14*sc.size)
                case.check(sorted(act[i][act[i] < len(sc.tracers)].tolist()) ==
                    sorted(js), what + ': neighbours', got=act[i], want=js)
                case.close(np.sort(d[i])[:len(js)], sc.dists()[i,js],
                    what + ': distances', 1e-12, 1e-14)
            case.equal(ipl.field_positions(), sc.tracers, what + ': positions')
            case.equal(ipl.current_data(), sc.data, what + ': data')
            results += 1
        ops.append(op)
    case.note(method=method, k=k, radius=radius, history=ops)
    case.count('operations', len(ops))
    if changes > 2 and results > 1:
        case.nontrivial(method, k, radius, ops, sc.tracers)


# ----------------------------------------------------------------- derivatives

@R26.scenario(quick=1200, thorough=24000)
def inverse_distance_derivatives(case):
    from flowtracks import interpolation as ip
    sc = Scene(case)
    k = case.pick([1, 2, 4, 7, 50])
    radius = pick_radius(case, sc) if case.chance(.3) else None
    par = case.pick([1, 2, 1.5, .5, 3])
    describe(case, sc, k=k, radius=radius, power=par)
    if unclear(sc, k, radius):
        return
    nb = neighbours(sc, k, radius)
    d = sc.dists()
    h = have(nb)
    near = min([d[i,js].min() for i, js in enumerate(nb) if len(js)],
        default=sc.size)
    want = np.zeros((len(sc.points), sc.data.shape[1], 3))
    step = 1e-30*sc.size
    for j in range(3):
        pts = sc.points.astype(complex)
        pts[:,j] += 1j*step
        for i, js in enumerate(nb):
            if len(js):
                diff = sc.tracers[js] - pts[i]
                r = np.sqrt((diff**2).sum(axis=1))
                w = (r / d[i,js].min())**-par
                want[i,:,j] = ((w[:,None]*sc.data[js]).sum(axis=0)
                    / w.sum()).imag / step
    ipl = used(case, ip.interpolant('inv', k, radius, par), sc)
    tr, pt, data, comp = sc.args()
    case.watch(tr, pt, data, comp)
    put(case, ipl, sc, (tr, pt, data, comp))
    if case.chance(.2): # Also with some of the neighbours only
        sub = ipl.current_active_neighbs().copy()
        sub[case.rng.random(sub.shape) < .4] = len(tr)
        ipl.interpolate(sub)
    local = case.pick([None, 'given'])
    if local == 'given':
        local = ipl.interpolate()
        case.watch(local)
    got = ipl.eulerian_jacobian(local)
    case.check(got.shape == want.shape, 'shape', got=got.shape, want=want.shape)
    case.close(got[h], want[h], 'derivatives', 1e-6, 1e-9*np.abs(sc.data).max()
        / near)
    case.count('derivatives compared', h.sum())
    if interesting(nb):
        case.nontrivial(sc.tracers, sc.points, sc.data, k, radius, par)


@R26.scenario(quick=900, thorough=18000)
def difference_quotients(case):
    from flowtracks import interpolation as ip
    method = case.pick(['rbf', 'corrfun'])
    sc = Scene(case)
    k = case.pick([1, 2, 4, 7, 50])
    eps = sc.size*10.**case.integer(-5, -2)
    given = [eps]
    if .01 <= sc.size <= 10. and case.chance(.4):
        eps, given = 100e-6, [] # the default
    if method == 'rbf':
        spacing = 2*sc.size / len(sc.tracers)**(1/3.)
        par = float(case.rng.uniform(.5, 4) / spacing**2)
        def ref(points=None):
            res, cond = ref_rbf(sc, neighbours(sc, k, points=points), par, points)
            return res, cond < 1e5
    else:
        par, corrs, bins = corr_file(case, sc, sc.data.shape[1])
        def ref(points=None):
            res, worst = ref_corr(sc, neighbours(sc, k, points=points), corrs,
                bins, points)
            return res, worst > 1e-2
    describe(case, sc, k=k, method=method, eps=eps)
    want = np.zeros((len(sc.points), sc.data.shape[1], 3))
    base, ok = ref()
    if not ok or unclear(sc, k, None):
        return
    for j in range(3):
        pts = sc.points.astype(float)
        pts[:,j] += eps
        res, ok = ref(pts)
        if not ok or unclear(sc, k, None, pts):
            return
        if method == 'corrfun':
            d = np.sqrt(((sc.tracers[None] - pts[:,None])**2).sum(axis=2))
            if np.abs(d.ravel()[:,None] - bins[1:]).min(initial=1) \
                    < 1e-9*sc.size:
                return
        want[:,:,j] = (res - base) / eps
    ipl = used(case, ip.interpolant(method, k, param=par), sc)
    put(case, ipl, sc, sc.args())
    local = ipl.interpolate() if case.chance(.5) else None
    if local is None and case.chance(.3):
        got = ipl.eulerian_jacobian(**dict(('eps', e) for e in given))
    else:
        got = ipl.eulerian_jacobian(local, *given)
    h = have(neighbours(sc, k))
    case.check(got.shape == want.shape, 'shape', got=got.shape, want=want.shape)
    case.close(got[h], want[h], 'difference quotients', 1e-5,
        1e-8*np.abs(sc.data).max() / eps)
    case.count('derivatives compared', h.sum())
    if interesting(neighbours(sc, k)):
        case.nontrivial(sc.tracers, sc.points, sc.data, k, method, eps)
