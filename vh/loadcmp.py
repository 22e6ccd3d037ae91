"""Comparison of a loaded grid object with the independent reading of the file."""

from .core import Violation, quiet
from . import mesh as M


def compare_loaded(ctx, g, dat, merge=True, where=''):
    lm = M.LoadModel(dat, merge)

    def bad(msg):
        raise Violation('{0}{1}'.format(where + ': ' if where else '', msg))

    if g.Name != (dat.title or ''):
        bad('title {0!r}, the file says {1!r}'.format(g.Name, dat.title))
    if [z.Name for z in g.Zones] != lm.zone_names:
        bad('zones {0}, the file says {1}'.format([z.Name for z in g.Zones], lm.zone_names))
    if len(g.Nodes) != len(lm.nodes):
        bad('{0} nodes, the file describes {1}'.format(len(g.Nodes), len(lm.nodes)))
    for i, (n, p) in enumerate(zip(g.Nodes, lm.nodes)):
        ctx.count('nodes_compared')
        for k in range(3):
            if not M.same_float(float(n.P[k]), p[k]):
                bad('node {0} coordinate {1} is {2!r}, the file says {3!r}'.format(i, k, n.P[k], p[k]))
    if len(g.Faces) != len(lm.faces):
        bad('{0} faces, the file has {1}'.format(len(g.Faces), len(lm.faces)))
    nid = {id(n): i for i, n in enumerate(g.Nodes)}
    for i, (f, (zi, ns, data)) in enumerate(zip(g.Faces, lm.faces)):
        ctx.count('faces_compared')
        got = tuple(nid.get(id(n), -1) for n in f.Nodes)
        if got != ns:
            bad('face {0} has nodes {1}, the file says {2}'.format(i, got, ns))
        if f.Zone is not g.Zones[zi]:
            bad('face {0} is not in zone {1}'.format(i, lm.zone_names[zi]))
        if list(f.Data.keys()) != list(data.keys()):
            bad('face {0} has variables {1}, the file says {2}'.format(i, list(f.Data), list(data)))
        for v, x in data.items():
            ctx.count('values_compared')
            if not M.same_float(float(f.Data[v]), x) or not M.same_float(float(f[v]), x):
                bad('face {0} variable {1} is {2!r}, the file says {3!r}'.format(i, v, f.Data[v], x))
    for zi, z in enumerate(g.Zones):
        want = [i for i, f in enumerate(lm.faces) if f[0] == zi]
        fid = {id(f): i for i, f in enumerate(g.Faces)}
        got = [fid.get(id(f), -1) for f in z.Faces]
        if got != want:
            bad('zone {0!r} lists faces {1}, the file says {2}'.format(z.Name, got[:10], want[:10]))
    return lm


def load(gsu, path, merge=True, g=None):
    g = g if g is not None else gsu.Grid()
    with quiet():
        if merge:
            g.load(path)
        else:
            g.load(path, is_merge_same_nodes=False)
    return g
