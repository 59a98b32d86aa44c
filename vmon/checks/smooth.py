"""Trajectory smoothing."""
import warnings
import numpy as np
from scipy import interpolate

from .. import gen, match
from ..core import Property

R28 = Property('R28',
    'Random trajectories (exact polynomials and noise) of many lengths and with '
    'other properties, smoothed with random windows, orders and frame rates; '
    'every point is compared with a polynomial fitted to its window by least '
    'squares. Non-trivial: a window with more points than the polynomial needs, '
    'and a trajectory longer than it.',
    ['windows are odd, and longer than the order by 2 or more'])
R29 = Property('R29',
    'Random smooth paths with and without noise, smoothed with random bounds and '
    'orders; deviations are compared with the bound. Non-trivial: the noise made '
    'the path change, or the bound was 0.')


def fit(y, order):
    """Least squares polynomial about the middle, coefficients from 0 up."""
    h = len(y) // 2
    x = np.arange(-h, h + 1) / float(max(h, 1))
    A = np.stack([x**i for i in range(order + 1)], axis=1)
    c = np.linalg.lstsq(A, y, rcond=None)[0]
    return c / float(max(h, 1))**np.arange(order + 1)


def reference(pos, window, order, fps):
    h = window // 2
    out = np.zeros((4,) + pos.shape)
    for d in range(pos.shape[1]):
        y = pos[:,d]
        before = [y[0] - abs(y[i] - y[0]) for i in range(h, 0, -1)]
        after = [y[-1] + abs(y[-1 - i] - y[-1]) for i in range(1, h + 1)]
        y = np.r_[before, y, after]
        for i in range(len(pos)):
            c = np.r_[fit(y[i:i + window], order), np.zeros(4)]
            out[:,i,d] = c[0], c[1]*fps, c[2]*2*fps**2, c[3]*6*fps**3
    return out


def polynomial(case, n, degree, fps):
    """Positions and derivatives."""
    t = (np.arange(n) - case.integer(0, n)) / fps
    c = case.rng.normal(size=(degree + 1, 3)) * .05 * \
        (fps/float(n))**np.arange(degree + 1)[:,None]
    res = []
    for der in range(4):
        p = np.zeros((n, 3))
        for i in range(der, degree + 1):
            f = np.prod(np.arange(i - der + 1, i + 1))
            p += f * c[i] * t[:,None]**(i - der)
        res.append(p)
    return res


@R28.scenario(quick=260, thorough=6000)
def savitzky_golay(case):
    from flowtracks.smoothing import savitzky_golay
    order = case.integer(0, 5)
    window = order + 2 + case.integer(0, 8)
    window += 1 - window % 2
    fps = case.pick([1, 1., 50., 500., 2500.])
    extra = gen.extra_schema(case)
    if case.chance(.3): # Smoothed before
        extra.update(vel_pp='vec', acc_pp='vec', accel='vec')
    models, exact = [], {}
    for trid in gen.unique_ids(case, case.integer(1, 5)):
        n = max(1, window + case.pick([-3, -1, 0, 0, 1, 5, 20]
            if not case.big else [0, 100, 1100]))
        m = gen.traj_models(case,
            types=gen.types(case), n=1, first=case.integer(0, 50), span=n,
            min_len=n, extra=extra, ids=[trid])[0]
        if case.chance(.4):
            degree = case.integer(0, order)
            exact[trid] = polynomial(case, n, degree, fps)
            m.props['pos'] = exact[trid][0].copy()
        models.append(m)
    trajs = [gen.real_traj(m) for m in models]
    case.watch(trajs)
    got = savitzky_golay(trajs, fps, window, order)
    keep = [m for m in models if len(m) >= window]
    case.note(window=window, order=order, fps=fps, lengths=[len(m) for m in
        models], properties=sorted(extra))
    match.unique_trajids(case, got)
    case.check([int(t.trajid()) for t in got] == [m.trajid for m in keep],
        'trajectories', got=[t.trajid() for t in got],
        want=[m.trajid for m in keep])
    for tr, m in zip(got, keep):
        what = 'trajectory %d: ' % m.trajid
        case.equal(tr.time(), m.time(), what + 'time')
        props = match.props_of(tr)
        want = set(m.props) | set(['accel', 'vel_pp', 'acc_pp'])
        case.check(set(props) == want, what + 'properties', got=sorted(props),
            want=sorted(want))
        for k in set(m.props) - set(['pos', 'velocity', 'accel', 'vel_pp',
                'acc_pp', 'time']):
            case.equal(props[k], m.props[k], what + 'property ' + k)
        pos, vel, acc, jerk = reference(m.props['pos'], window, order, fps)
        s = 1e-8*np.abs(m.props['pos']).max()
        case.close(tr.pos(), pos, what + 'position', 1e-7, s)
        case.close(tr.velocity(), vel, what + 'velocity', 1e-7, s*fps)
        case.close(tr.accel(), acc, what + 'acceleration', 1e-7, s*fps**2)
        vpp, app = np.zeros_like(pos), np.zeros_like(pos)
        for i in range(1, len(m)): # Of the previous polynomial, one frame on.
            vpp[i] = vel[i-1] + acc[i-1]/fps + jerk[i-1]/2/fps**2
            app[i] = acc[i-1] + jerk[i-1]/fps
        case.close(tr.vel_pp(), vpp, what + 'velocity from the previous '
            'polynomial', 1e-7, 10*s*fps)
        case.close(tr.acc_pp(), app, what + 'acceleration from the previous '
            'polynomial', 1e-7, 10*s*fps**2)
        h = window // 2
        mid = slice(h, len(m) - h)
        if m.trajid in exact:
            e = exact[m.trajid]
            case.close(tr.pos()[mid], e[0][mid], what + 'polynomial position',
                1e-7, s)
            if order >= 1:
                case.close(tr.velocity()[mid], e[1][mid], what + 'polynomial '
                    'velocity', 1e-6, s*fps)
            if order >= 2:
                case.close(tr.accel()[mid], e[2][mid], what + 'polynomial '
                    'acceleration', 1e-6, s*fps**2)
            case.count('exact polynomials recovered')
        case.count('points compared', len(m))
    if keep:
        case.nontrivial(window, order, fps, [m.props for m in models])


@R28.scenario(quick=40, thorough=500)
def bad_windows(case):
    from flowtracks.smoothing import savitzky_golay
    m = gen.traj_models(case, n=1, span=30, min_len=30)[0]
    order = case.integer(0, 6)
    if case.chance(.5):
        window = 2*case.integer(1, 10)
    else:
        window = max(1, order + 1 - 2*case.integer(0, 2))
        window -= 1 - window % 2
        window = max(window, 1)
    if window % 2 and window >= order + 2:
        return
    case.note(window=window, order=order)
    case.raises((TypeError, ValueError), lambda: savitzky_golay(
        [gen.real_traj(m)], 100., window, order), 'no error for window %d, order '
        '%d' % (window, order))
    case.nontrivial(window, order)


def check_derivatives(case, got, pos, order, place):
    """
    Between any two data points the path is a polynomial of its parameter, the
    relative length along the data. So values at the ends of an interval say
    what derivatives are.
    """
    u = np.r_[0., np.cumsum(np.sqrt((np.diff(pos, axis=0)**2).sum(axis=1)))]
    u /= u[-1]
    moved = np.r_[True, np.diff(place) > 0]
    u = u[moved]
    h = np.diff(u)[:,None]
    p, v, a = got.pos()[moved], got.velocity()[moved], got.accel()[moved]
    d = np.diff(p, axis=0)
    def same(x, y, what):
        # Rounding errors are greatest in the shortest interval.
        noise = 1e-14*np.abs(p).max()*60/h.min()**(2 if order < 5 else 3)
        case.close(x, y, what, 1e-5, 1e-6*np.abs(y).max() + noise)
        case.count('derivatives compared', len(x))
    if order == 1:
        same(v[:-1], d/h, 'velocity')
        case.equal(a, np.zeros_like(a), 'acceleration')
    elif order == 3:
        same(a[:-1], 6*d/h**2 - (4*v[:-1] + 2*v[1:])/h, 'acceleration')
        same(a[1:], -6*d/h**2 + (2*v[:-1] + 4*v[1:])/h, 'acceleration')
        # Three conditions for the six values at the ends of a cubic; the last:
        same(v[1:] - v[:-1], (a[:-1] + a[1:])/2*h, 'velocity')
    elif order == 5: # The third derivative is continuous
        left = 60*d/h**3 - (24*v[:-1] + 36*v[1:])/h**2 \
            - (3*a[:-1] - 9*a[1:])/h
        right = 60*d/h**3 - (36*v[:-1] + 24*v[1:])/h**2 \
            - (9*a[:-1] - 3*a[1:])/h
        same(left[:-1], right[1:], 'third derivative')


def can_reach(pos, place, order, s):
    """Whether FITPACK, left alone, finds a spline within the bound."""
    _, first, count = np.unique(place, return_index=True, return_counts=True)
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter('always')
        interpolate.splprep(list(pos[first].T), w=np.sqrt(count), k=order, s=s)
    return not said


@R29.scenario(quick=250, thorough=6000)
def splines(case):
    order = case.pick([1, 3, 3, 5])
    n = case.integer(1, 40) if not case.big else case.integer(200, 600)
    if case.chance(.2): # About as many as the spline needs
        n = order + case.integer(0, 3)
    t0 = case.integer(0, 500)
    t = np.arange(n)
    c = case.rng.normal(size=3)*.02
    clean = np.stack((t*.01 + c[0], .05*np.sin(t*.15 + c[1]), .0005*t**2 + c[2]),
        axis=1)
    tangent = np.stack((np.full(n, .01), .05*.15*np.cos(t*.15 + c[1]), .001*t),
        axis=1)
    noise = case.pick([0., 1e-4, 1e-3])
    pos = clean + case.rng.normal(size=(n, 3))*noise
    still = case.chance(.25)
    if still: # For some frames, or all the time.
        moves = case.rng.random(n) < case.pick([0., .1, .5, .9, .9])
        moves[0] = False
        place = np.cumsum(moves)
        pos = pos[place]
        if case.chance(.5): # Moving along one axis only, now and then
            pos[:,case.integer(0, 2)] = pos[0,0]
    else:
        place = t
    places = place[-1] + 1
    m = gen.T(case.integer(0, 999), {'pos': pos,
        'velocity': case.rng.normal(size=(n, 3)), 'time': t + t0})
    bound = case.pick([0, 0, 1e-5, 1e-4, 1e-3, 1e-2])
    tr = gen.real_traj(m)
    case.watch(tr)
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter('always')
        got = tr.smoothed(bound, order)
    case.note(length=n, order=order, bound=bound, noise=noise)
    case.check(int(got.trajid()) == m.trajid, 'trajectory id')
    case.equal(got.time(), m.time(), 'time')
    if places < order + 1:
        match.same_traj(case, got, m, 'a trajectory too short to smooth', 0, 0)
        case.count('standing still', still)
        return
    case.check(np.shape(got.pos()) == np.shape(got.velocity()) ==
        np.shape(got.accel()) == (n, 3), 'shapes')
    case.check(got is not tr and np.isfinite(got.pos()).all()
        and np.isfinite(got.velocity()).all(), 'finite results')
    dev = np.sum((got.pos() - m.props['pos'])**2)
    s = (n*bound)**2
    if said and bound > 0 and not can_reach(pos, place, order, s):
        # FITPACK does not reach the bound.
        case.count('not converged')
        return
    if bound == 0:
        case.close(got.pos(), m.props['pos'], 'positions with zero bound', 0,
            1e-8)
    else:
        case.check(dev <= s*1.05 + 1e-16, 'deviation from the data beyond the '
            'bound', got=dev, bound=s)
    if still: # The same results as long as it stays there
        for k in ('pos', 'velocity', 'accel'):
            v = getattr(got, k)()
            case.equal(v, v[np.searchsorted(place, place)], 'standing still, '
                + k)
            case.count('standing still', n - places)
    if noise == 0 and bound == 0 and order > 1 and n > 12 and not still:
        mid = slice(4, n - 4)
        v, w = got.velocity()[mid], tangent[mid]
        cos = np.sum(v*w, axis=1)/np.linalg.norm(v, axis=1)/ \
            np.linalg.norm(w, axis=1)
        case.check(cos > .995, 'velocity is not along the path', got=cos.min())
        case.count('tangents compared', len(cos))
    check_derivatives(case, got, m.props['pos'], order, place)
    # Stronger smoothing, as far from the data at least.
    if bound > 0:
        more = tr.smoothed(bound*3, order)
        dev2 = np.sum((more.pos() - m.props['pos'])**2)
        case.check(dev2 >= dev*.95 - 1e-16, 'a larger bound gave a closer path',
            got=dev2, before=dev)
    if bound == 0 or dev > 0:
        case.nontrivial(order, bound, m.props)
