"""Monitors of decompositions."""
import random

from . import mesh as M, topo
from .core import quiet

METHODS = ['mono', 'linear', 'random', 'hierarchical', 'farhat']


def frozen_surface(g):
    """Everything about the grid that a decomposition must keep."""
    return (tuple((id(n), n.GloId, tuple(repr(c) for c in (n.P[0], n.P[1], n.P[2]))) for n in g.Nodes),
            tuple((id(e), e.GloId, tuple(id(n) for n in e.Nodes), tuple(id(f) for f in e.Faces)) for e in g.Edges),
            tuple((id(f), f.GloId, tuple(id(n) for n in f.Nodes), tuple(id(e) for e in f.Edges),
                   tuple((k, repr(v)) for k, v in f.Data.items())) for f in g.Faces))


def distinct_centers(g, faces):
    """All centroid coordinates are well apart along every axis."""
    cs = [[sum(float(n.P[k]) for n in f.Nodes) / 3.0 for f in faces] for k in range(3)]
    for c in cs:
        s = sorted(c)
        scale = max(1e-300, max(abs(x) for x in s)) if s else 1.0
        if any(b - a < 1e-9 * scale for a, b in zip(s, s[1:])):
            return False
    return True


def hier_sizes(n, levels):
    """Sizes of pieces when every split is at the median."""
    if levels <= 1 or n < 2:
        return [n]
    return hier_sizes(n // 2, levels - 1) + hier_sizes(n - n // 2, levels - 1)


def balanced(n, count):
    return sorted(n // count + (1 if i < n % count else 0) for i in range(count))


def apply(g, rng, method, count, fixed=None, new_name=None):
    kw = {}
    if new_name is not None:
        kw['new_name'] = new_name
    size = {} if count == {'hierarchical': 6}.get(method, 32) and rng.random() < 0.7 else {
        'levels' if method == 'hierarchical' else 'count': count}
    random.seed(rng.random())
    with quiet():
        if method == 'mono':
            g.decompose_mono(**kw)
        elif method == 'linear':
            g.decompose_linear(**size, **kw)
        elif method == 'random':
            g.decompose_random(**size, **kw)
        elif method == 'hierarchical':
            if fixed:
                kw['fixed_zones'] = fixed
            g.decompose_hierarchical(**size, **kw)
        else:
            if fixed:
                kw['fz_names'] = fixed
            g.decompose_farhat(**size, **kw)


def sizes_promised(ctx, g, method, count, new_zones, where, key=''):
    """Numbers and sizes of the new zones."""
    sizes = [len(z.Faces) for z in new_zones]
    free = sum(sizes)
    if method == 'mono':
        ctx.eq(len(sizes), 1, where + ': number of zones', key)
    elif method == 'random':
        ctx.eq(len(sizes), count, where + ': number of zones', key)
    elif method in ('linear', 'farhat'):
        ctx.eq(len(sizes), count, where + ': number of new zones', key)
        ctx.eq(sorted(sizes), balanced(free, count), where + ': sizes of zones', key)
    else:
        full = [s for s in sizes if s > 0]
        ctx.check(len(full) <= 2 ** (count - 1), '{0}: {1} zones at {2} levels'.format(where, len(full), count), key)
        ctx.check(len(sizes) == len(full) or free == 0, '{0}: empty zones {1}'.format(where, sizes), key)
        if free and distinct_centers(g, [f for z in new_zones for f in z.Faces]):
            ctx.eq(sorted(full), sorted(s for s in hier_sizes(free, count) if s), where + ': sizes of zones', key)
            ctx.count('hierarchical_exact_sizes')


def linear_runs(ctx, g, new_zones, where, key=''):
    pos = {id(f): i for i, f in enumerate(g.Faces)}
    runs = []
    for z in new_zones:
        p = sorted(pos[id(f)] for f in z.Faces)
        if p:
            ctx.check(p[-1] - p[0] == len(p) - 1, where + ': a linear zone is not a run of consecutive faces', key)
            runs.append(p[0])
    ctx.check(runs == sorted(runs), where + ': linear zones are not in the order of faces', key)
