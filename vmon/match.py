"""Oracle helpers: compare what the library returned with a model."""
import numpy as np


def pos_key(t, pos):
    # The bounds between the cells are between positions with 12 digits.
    return (tuple(int(x) for x in np.rint(np.atleast_1d(t))),
        np.rint(np.asarray(pos, dtype=float)*1e10 + .2718281828).astype(np.int64).tobytes())


def unique_trajids(case, trajs):
    ids = [int(t.trajid()) for t in trajs]
    case.check(len(set(ids)) == len(ids), 'trajectory ids are not unique',
        ids=ids)
    return ids


def props_of(obj):
    """Properties by the public accessors, checked against the dictionary."""
    return dict((k, getattr(obj, k)()) for k in obj.schema())


def same_traj(case, got, want, what, rtol=1e-12, atol=1e-14, only=None):
    """got - a Trajectory. want - gen.T"""
    case.check(int(got.trajid()) == want.trajid, what + ': trajectory id',
        got=got.trajid(), want=want.trajid)
    names = set(want.props) if only is None else set(only)
    props = props_of(got)
    case.check(set(props) >= names, what + ': missing properties',
        got=sorted(props), want=sorted(names))
    if only is None:
        case.check(set(props) == names, what + ': other properties',
            got=sorted(props), want=sorted(names))
    case.check(len(got) == len(want), what + ': wrong number of points',
        trajid=want.trajid, got=len(got), want=len(want),
        got_time=got.time(), want_time=want.time())
    for name in sorted(names):
        case.close(props[name], want.props[name], '%s: property %s of '
            'trajectory %d' % (what, name, want.trajid), rtol, atol)


def same_traj_set(case, got, want, what, **kwds):
    """Lists, in any order."""
    unique_trajids(case, got)
    gids = sorted(int(t.trajid()) for t in got)
    wids = sorted(t.trajid for t in want)
    case.check(gids == wids, what + ': wrong set of trajectories', got=gids,
        want=wids)
    by_id = dict((t.trajid, t) for t in want)
    for tr in got:
        same_traj(case, tr, by_id[int(tr.trajid())], what, **kwds)
        case.count('trajectories compared')
        case.count('trajectory points compared', len(tr))


def same_snapshot(case, got, want, time, what, rtol=1e-12, atol=1e-14,
        names=None):
    """
    got - a ParticleSnapshot. want - [(gen.T, row), ...]. Rows in any order, all
    properties in the same one.
    """
    case.check(float(np.asarray(got.time())) == float(time),
        what + ': time of the frame', got=got.time(), want=time)
    case.check(len(got) == len(want), what + ': number of particles in frame '
        '%s' % time, got=len(got), want=len(want),
        got_ids=got.trajid(), want_ids=[t.trajid for t, _ in want])
    case.count('frames compared')
    case.count('particles compared', len(want))
    if len(want) == 0:
        return
    gids = np.asarray(got.trajid()).astype(int)
    rows = dict((t.trajid, (t, i)) for t, i in want)
    case.check(len(set(gids)) == len(gids) and set(gids) == set(rows),
        what + ': wrong particles in frame %s' % time, got=gids,
        want=sorted(rows))
    if names is None:
        names = set(want[0][0].props) - {'time'}
    props = props_of(got)
    case.check(set(props) - {'trajid'} == set(names), what + ': properties of a '
        'frame', got=sorted(props), want=sorted(names))
    for name in sorted(names):
        exp = np.array([rows[i][0].props[name][rows[i][1]] for i in gids])
        case.close(props[name], exp, '%s: property %s in frame %s' % (
            what, name, time), rtol, atol)


def sorted_rows(cols):
    """Columns of n rows (1D or 2D) to one table in lexicographic order."""
    cols = [np.asarray(c, dtype=float) for c in cols]
    tab = np.hstack([c.reshape(len(c), int(np.prod(c.shape[1:]))) for c in cols])
    return tab[np.lexsort(tab.T[::-1])]
