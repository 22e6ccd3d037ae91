"""Monitors over sets of domain files."""
import os

from . import mesh as M
from .core import Violation, quiet

FIXED_VARS = M.CRY_VARS[4:]


def read_domains(ctx, d, base, ts, sf='.cry'):
    """All domain files of a directory, by rank; their names must be exactly the expected ones."""
    names = sorted(x for x in os.listdir(d) if x.endswith(sf))
    want = ['{0}_{1:05d}_{2}{3}'.format(base, i, ts, sf) for i in range(len(names))]
    ctx.eq(names, want, 'names of domain files', 'names')
    res = []
    for i, nm in enumerate(names):
        try:
            c = M.Cry(os.path.join(d, nm))
        except (M.ParseError, ValueError, IndexError) as e:
            raise Violation('domain file {0} is malformed: {1}'.format(nm, e), 'malformed')
        ctx.eq(c.rank, i, 'rank stated in ' + nm, 'rank')
        res.append(c)
        ctx.count('domain_files_read')
    return res


def local_tables(ctx, c, where):
    """Tables of one domain file agree with each other."""
    ctx.eq(len(set(c.en)), len(c.en), where + ': edges repeat')
    ctx.eq(len({frozenset(e) for e in c.en}), len(c.en), where + ': edges repeat')
    used_n, used_e = set(), set()
    for f in range(c.faces):
        n = c.fn[f]
        ctx.check(len(set(n)) == 3, '{0}: face {1} nodes {2}'.format(where, f, n))
        want = {frozenset((n[0], n[1])), frozenset((n[1], n[2])), frozenset((n[0], n[2]))}
        got = {frozenset(c.en[e]) for e in c.fe[f]}
        ctx.check(got == want, '{0}: face {1} with nodes {2} refers to edges {3}'.format(where, f, n, [c.en[e] for e in c.fe[f]]),
                  monitor='face_tables_compared')
        used_n |= set(n)
        used_e |= set(c.fe[f])
    ctx.eq(len(used_n), c.nodes, where + ': nodes used by faces')
    ctx.eq(len(used_e), c.edges, where + ': edges used by faces')
    if True:
        ks = [tuple(repr(x) for x in p) for p in c.pts]
        ctx.eq(len(set(ks)), len(ks), where + ': distinct points')


def whole(ctx, cs, faces, zone_faces, where, values=None):
    """
    The files hold every face once.
    faces: list of (points triple, data) by global identifier; zone_faces: list of sets of identifiers per rank.
    """
    seen = {}
    for r, c in enumerate(cs):
        ctx.eq(set(c.gloid), set(zone_faces[r]), '{0}: faces of domain {1}'.format(where, r))
        for i, gid in enumerate(c.gloid):
            ctx.check(gid not in seen, '{0}: face {1} twice'.format(where, gid))
            seen[gid] = r
            pts, data = faces[gid]
            got = tuple(c.pts[k] for k in c.fn[i])
            ok = all(M.same_float(got[k][t], pts[k][t]) for k in range(3) for t in range(3))
            ctx.check(ok, '{0}: face {1} has points {2}, the grid {3}'.format(where, gid, got, pts), monitor='domain_faces_compared')
            for v in FIXED_VARS:
                want = data.get(v, 0.0)
                ctx.check(M.same_float(c.data[v][i], want), '{0}: face {1} {2} is {3!r}, the grid has {4!r}'.format(
                    where, gid, v, c.data[v][i], want), monitor='domain_values_compared')
    ctx.eq(len(seen), len(faces), where + ': faces in all files')


def borders(ctx, cs, where):
    """Lists of border edges are the shared edges, in the same order on both sides."""
    def pt(c, e):
        return frozenset(tuple(repr(x) for x in c.pts[k]) for k in c.en[e])
    owner = {}
    for r, c in enumerate(cs):
        for f in range(c.faces):
            for e in c.fe[f]:
                owner.setdefault(pt(c, e), []).append(r)
    shared = {}
    for k, rs in owner.items():
        if len(rs) > 2:
            raise Violation('{0}: an edge with {1} faces in the files'.format(where, len(rs)))
        if len(rs) == 2 and rs[0] != rs[1]:
            a, b = sorted(rs)
            shared.setdefault((a, b), set()).add(k)
    for r, c in enumerate(cs):
        want = {(b if a == r else a) for a, b in shared if r in (a, b)}
        ctx.eq(set(c.borders), want, '{0}: neighbours of domain {1}'.format(where, r), monitor='neighbour_sets_compared')
        ctx.eq(c.cross, sum(len(v) for v in c.borders.values()), '{0}: cross edges of domain {1}'.format(where, r))
    for (a, b), ks in shared.items():
        la, lb = [pt(cs[a], e) for e in cs[a].borders[b]], [pt(cs[b], e) for e in cs[b].borders[a]]
        ctx.check(la == lb, '{0}: border lists of domains {1} and {2} differ ({3} and {4} edges)'.format(
            where, a, b, len(la), len(lb)), monitor='border_pairs_compared')
        ctx.check(len(la) == len(ks) and set(la) == ks, '{0}: border of domains {1} and {2} lists {3} edges, {4} are shared'.format(
            where, a, b, len(la), len(ks)))
        ctx.count('border_edges_compared', len(la))
    return sum(len(v) for v in shared.values())
