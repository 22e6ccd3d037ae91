"""
Monitors over the state of a grid object: mutual links, identifiers, zones, geometry.
They look only at the public fields (Nodes, Edges, Faces, Zones, Data, GloId, P).
"""

from .core import Violation
from .mesh import rkey


def edge_key(e):
    return frozenset(id(n) for n in e.Nodes)


def integrity(ctx, g, zones=True, ids=True, where='', key='', orphan_nodes=True, merged=True):
    """
    The whole incidence structure is one consistent simplicial 2-complex.
    """
    ctx.count('integrity_scans')

    def bad(msg):
        raise Violation('{0}{1}'.format(where + ': ' if where else '', msg), key)

    nid = {id(n): i for i, n in enumerate(g.Nodes)}
    eid = {id(e): i for i, e in enumerate(g.Edges)}
    fid = {id(f): i for i, f in enumerate(g.Faces)}
    if len(nid) != len(g.Nodes) or len(eid) != len(g.Edges) or len(fid) != len(g.Faces):
        bad('an object is listed twice in the grid')

    # Identifiers.
    if ids:
        for what, os in (('node', g.Nodes), ('edge', g.Edges), ('face', g.Faces)):
            if sorted(o.GloId for o in os) != list(range(len(os))):
                bad('{0} identifiers are not 0..{1} each once: {2}'.format(
                    what, len(os) - 1, sorted(o.GloId for o in os)[-8:]))

    want_edges = {}
    for f in g.Faces:
        if len(f.Nodes) != 3 or len({id(n) for n in f.Nodes}) != 3:
            bad('face {0} does not have 3 distinct nodes'.format(f.GloId))
        if len(f.Edges) != 3 or len({id(e) for e in f.Edges}) != 3:
            bad('face {0} does not have 3 distinct edges'.format(f.GloId))
        for n in f.Nodes:
            if id(n) not in nid:
                bad('face {0} uses a node that is not in the grid'.format(f.GloId))
            if sum(1 for x in n.Faces if x is f) != 1:
                bad('node {0} does not link back to face {1} once'.format(n.GloId, f.GloId))
        a, b, c = [id(n) for n in f.Nodes]
        need = {frozenset((a, b)), frozenset((b, c)), frozenset((a, c))}
        for e in f.Edges:
            if id(e) not in eid:
                bad('face {0} uses an edge that is not in the grid'.format(f.GloId))
            if sum(1 for x in e.Faces if x is f) != 1:
                bad('edge {0} does not link back to face {1} once'.format(e.GloId, f.GloId))
        if {edge_key(e) for e in f.Edges} != need:
            bad('edges of face {0} do not join its nodes'.format(f.GloId))
        for k in need:
            want_edges.setdefault(k, set()).add(id(f))
        ctx.count('faces_scanned')

    seen = set()
    for e in g.Edges:
        if len(e.Nodes) != 2 or e.Nodes[0] is e.Nodes[1]:
            bad('edge {0} does not have 2 distinct nodes'.format(e.GloId))
        k = edge_key(e)
        if k in seen:
            bad('two edges join the same nodes (edge {0})'.format(e.GloId))
        seen.add(k)
        for n in e.Nodes:
            if id(n) not in nid:
                bad('edge {0} uses a node that is not in the grid'.format(e.GloId))
            if sum(1 for x in n.Edges if x is e) != 1:
                bad('node {0} does not link back to edge {1} once'.format(n.GloId, e.GloId))
        if len(e.Faces) not in (1, 2):
            bad('edge {0} has {1} faces'.format(e.GloId, len(e.Faces)))
        for f in e.Faces:
            if id(f) not in fid:
                bad('edge {0} links to a face that is not in the grid'.format(e.GloId))
            if sum(1 for x in f.Edges if x is e) != 1:
                bad('face {0} does not link back to edge {1}'.format(f.GloId, e.GloId))
        if {id(f) for f in e.Faces} != want_edges.get(k, set()):
            bad('faces of edge {0} are not the faces on its two nodes'.format(e.GloId))
        ctx.count('edges_scanned')
    if seen != set(want_edges):
        bad('the edges of the grid are not the sides of its faces')

    for n in g.Nodes:
        for e in n.Edges:
            if id(e) not in eid or not any(x is n for x in e.Nodes):
                bad('node {0} links to a foreign edge'.format(n.GloId))
        for f in n.Faces:
            if id(f) not in fid or not any(x is n for x in f.Nodes):
                bad('node {0} links to a foreign face'.format(n.GloId))
        if len({id(e) for e in n.Edges}) != len(n.Edges) or len({id(f) for f in n.Faces}) != len(n.Faces):
            bad('node {0} has a repeated link'.format(n.GloId))
        if orphan_nodes and not n.Faces:
            bad('node {0} belongs to no face'.format(n.GloId))

    if merged:
        ks = {}
        for n in g.Nodes:
            k = rkey((n.P[0], n.P[1], n.P[2]))
            if k in ks:
                bad('nodes {0} and {1} are at the same place'.format(ks[k], n.GloId))
            ks[k] = n.GloId

    if zones:
        zone_lists(ctx, g, where, key)
    return {'nodes': len(g.Nodes), 'edges': len(g.Edges), 'faces': len(g.Faces)}


def zone_lists(ctx, g, where='', key=''):
    """Each face in exactly one zone; zone node and edge lists are what its faces use."""

    def bad(msg):
        raise Violation('{0}{1}'.format(where + ': ' if where else '', msg), key)

    if len({id(z) for z in g.Zones}) != len(g.Zones):
        bad('a zone is listed twice')
    zs = {id(z) for z in g.Zones}
    owner = {}
    for z in g.Zones:
        for f in z.Faces:
            if id(f) in owner:
                bad('face {0} is listed in two zones or twice'.format(f.GloId))
            owner[id(f)] = id(z)
            if f.Zone is not z:
                bad('face {0} is listed in zone {1} but refers to another one'.format(f.GloId, z.Name))
    for f in g.Faces:
        if f.Zone is None or id(f.Zone) not in zs:
            bad('face {0} refers to no zone of the grid'.format(f.GloId))
        if id(f) not in owner:
            bad('face {0} is in no zone'.format(f.GloId))
    if len(owner) != len(g.Faces):
        bad('zones contain {0} faces, the grid {1}'.format(len(owner), len(g.Faces)))
    for z in g.Zones:
        wn = {id(n) for f in z.Faces for n in f.Nodes}
        we = {id(e) for f in z.Faces for e in f.Edges}
        gn, ge = [id(n) for n in z.Nodes], [id(e) for e in z.Edges]
        if len(set(gn)) != len(gn) or set(gn) != wn:
            bad('node list of zone {0!r}: {1} nodes ({2} distinct), its faces use {3}'.format(
                z.Name, len(gn), len(set(gn)), len(wn)))
        if len(set(ge)) != len(ge) or set(ge) != we:
            bad('edge list of zone {0!r}: {1} edges ({2} distinct), its faces use {3}'.format(
                z.Name, len(ge), len(set(ge)), len(we)))
        ctx.count('zones_scanned')


def snapshot(g):
    """Everything observable about a grid, for checking that an operation changed nothing."""
    nid = {id(n): i for i, n in enumerate(g.Nodes)}
    eid = {id(e): i for i, e in enumerate(g.Edges)}
    fid = {id(f): i for i, f in enumerate(g.Faces)}
    zid = {id(z): i for i, z in enumerate(g.Zones)}

    def ix(d, os):
        return tuple(d.get(id(o), -1) for o in os)
    return (g.Name,
            tuple((n.GloId, tuple(repr(c) for c in (n.P[0], n.P[1], n.P[2])), ix(eid, n.Edges), ix(fid, n.Faces))
                  for n in g.Nodes),
            tuple((e.GloId, ix(nid, e.Nodes), ix(fid, e.Faces)) for e in g.Edges),
            tuple((f.GloId, ix(nid, f.Nodes), ix(eid, f.Edges), zid.get(id(f.Zone), -1),
                   tuple((k, repr(v)) for k, v in f.Data.items())) for f in g.Faces),
            tuple((z.Name, ix(nid, z.Nodes), ix(eid, z.Edges), ix(fid, z.Faces)) for z in g.Zones))


def geometry(g):
    """Faces as unordered collections of exact points with data, regardless of zones and ids."""
    return sorted((tuple(sorted(tuple(repr(c) for c in (n.P[0], n.P[1], n.P[2])) for n in f.Nodes)),
                   tuple(sorted((k, repr(v)) for k, v in f.Data.items()))) for f in g.Faces)
