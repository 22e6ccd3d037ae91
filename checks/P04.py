"""P04: malformed grid files are rejected."""
import gsu
from vh import mesh as M
from vh.core import HarnessError, quiet
from vh.loadcmp import load, compare_loaded

RULE = ('a well-formed random grid file gets exactly one fault of one of 16 kinds at a random place (the intact file must load); '
        'non-trivial = new (fault kind, family, place)')
QUICK, THOROUGH = 3780, 7560
MIN = {'rejections': 800, 'accepted_intact': 200}


class Doc:
    """A grid file as lines with roles."""

    def __init__(self, text):
        self.lines = text.split('\n')[:-1]
        self.role = []
        L = self.lines
        i = 0
        nv = 0
        zone = -1
        while i < len(L):
            l = L[i]
            if l.startswith('#'):
                self.role.append(('comment', -1))
            elif l.startswith('TITLE='):
                self.role.append(('title', -1))
            elif l.startswith('VARIABLES='):
                nv = len(l.split(','))
                self.role.append(('vars', -1))
            elif l.startswith('ZONE T='):
                zone += 1
                ne = int(L[i + 2].split('=')[1])
                self.role += [('zone', zone), ('nodes', zone), ('elements', zone), ('packing', zone), ('type', zone),
                              ('loc', zone)]
                self.role += [('xyz', zone)] * 3 + [('data', zone)] * (nv - 3) + [('conn', zone)] * ne
                i += 5 + nv + ne
            else:
                raise HarnessError('document model')
            i += 1
        if len(self.role) != len(L):
            raise HarnessError('document model: {0} roles, {1} lines'.format(len(self.role), len(L)))

    def where(self, *roles):
        return [i for i, r in enumerate(self.role) if r[0] in roles]

    def zone_nodes(self, zi):
        for i, r in enumerate(self.role):
            if r == ('nodes', zi):
                return int(self.lines[i].split('=')[1])

    def with_(self, i, text):
        return self.lines[:i] + [text] + self.lines[i + 1:]

    def without(self, i):
        return self.lines[:i] + self.lines[i + 1:]


KINDS = ['unknown line', 'packing', 'zone type', 'variable location', 'no count line', 'no head line', 'short coordinates',
         'short data', 'missing row', 'missing connectivity line', 'index too big', 'index not positive',
         'two nodes', 'four nodes', 'not a number', 'truncated', 'third face on an edge']


def damage(rng, kind, d, m):
    """Lines of the damaged file, or None when the fault cannot be made here."""
    if kind == 'unknown line':
        places = [i for i, r in enumerate(d.role) if r[0] in ('comment', 'title', 'vars', 'zone')] + [len(d.lines)]
        i = rng.choice(places)
        return d.lines[:i] + [rng.choice(['garbage', 'ZON T="z"', '1.0 2.0 3.0', 'TEXT T="abc"', 'STRANDID=1', 'SOLUTIONTIME=0.5', 'garbage # not a comment',
                                               'NODES=4', 'ELEMENTS=2', 'DATAPACKING=BLOCK', 'TITLE "x"'])] + d.lines[i:]
    if kind == 'packing':
        return d.with_(rng.choice(d.where('packing')), rng.choice(['DATAPACKING=POINT', 'DATAPACKING=', 'F=FEBLOCK', 'DATAPACKING=BLOCKS', 'DATAPACKING=BLOCK, 2',
                                                              'NO DATAPACKING=BLOCK', 'datapacking=block', 'DATAPACKING=BLOC']))
    if kind == 'zone type':
        return d.with_(rng.choice(d.where('type')), rng.choice(['ZONETYPE=FEBRICK', 'ZONETYPE=FEQUADRILATERAL', 'ZONETYPE=', 'ZONETYPE=FETRIANGLES',
                                                           'ZONETYPE=FETRIANGLE FEBRICK', 'OLDZONETYPE=FETRIANGLE', 'ZONETYPE=FE']))
    if kind == 'variable location':
        i = rng.choice(d.where('loc'))
        n = 3 + len(m.vars)
        k = rng.choice([n - 1, n + 1, 2 * n, 0])
        return d.with_(i, rng.choice(['VARLOCATION=([4-{0}]=CELLCENTERED)'.format(k),
                                      'VARLOCATION=([4-{0}]=NODAL)'.format(n),
                                      'VARLOCATION=([3-{0}]=CELLCENTERED)'.format(n),
                                      'VARLOCATION=([4-{0}]=CELLCENTERED),([1]=NODAL)'.format(n),
                                      'VARLOCATION=([4-{0}]=CELLCENTERED'.format(n),
                                      'VARLOCATION=([4-{0}1]=CELLCENTERED)'.format(n)]))
    if kind == 'no count line':
        return d.without(rng.choice(d.where('nodes', 'elements')))
    if kind == 'no head line':
        return d.without(rng.choice(d.where('packing', 'type', 'loc', 'vars', 'zone')))
    if kind in ('short coordinates', 'short data'):
        c = d.where('xyz' if kind == 'short coordinates' else 'data')
        if not c:
            return None
        i = rng.choice(c)
        ss = d.lines[i].split()
        del ss[rng.randrange(len(ss))]
        return d.with_(i, ' '.join(ss))
    if kind == 'missing row':
        return d.without(rng.choice(d.where('xyz', 'data')))
    if kind == 'missing connectivity line':
        return d.without(rng.choice(d.where('conn')))
    if kind in ('index too big', 'index not positive'):
        i = rng.choice(d.where('conn'))
        n = d.zone_nodes(d.role[i][1])
        ss = d.lines[i].split()
        bad = rng.choice([n + 1, n + 1, 2 * n + 1, 10 ** 6]) if kind == 'index too big' else rng.choice([0, 0, -1, -n])
        ss[rng.randrange(3)] = str(bad)
        return d.with_(i, ' '.join(ss))
    if kind == 'two nodes':
        i = rng.choice(d.where('conn'))
        return d.with_(i, ' '.join(d.lines[i].split()[:rng.choice([2, 2, 1, 0])]))
    if kind == 'four nodes':
        i = rng.choice(d.where('conn'))
        ss = d.lines[i].split()
        return d.with_(i, ' '.join(ss + [rng.choice(ss)]))
    if kind == 'not a number':
        i = rng.choice(d.where('xyz', 'data', 'conn', 'nodes', 'elements'))
        if d.role[i][0] in ('nodes', 'elements'):
            return d.with_(i, d.lines[i].split('=')[0] + '=' + rng.choice(['x', '', '1.5e', 'ten']))
        ss = d.lines[i].split()
        ss[rng.randrange(len(ss))] = rng.choice(['x', '1.0.0', '--1', '"1"'])
        return d.with_(i, ' '.join(ss))
    if kind == 'truncated':
        # Keep k lines; the end of the head or of a zone is a complete file.
        ks = [k for k in range(1, len(d.lines)) if d.role[k][0] not in ('comment', 'title', 'vars', 'zone')]
        return d.lines[:rng.choice(ks)]
    return None


def third_face(rng, m):
    """One more face over an edge that already has two."""
    ef = [k for k, v in M.edge_faces(m.F).items() if len(v) == 2]
    if not ef:
        return None
    a, b = rng.choice(ef)
    m = m.copy()
    m.V = m.V + [tuple(sum(m.V[i][t] for i in (a, b)) / 2.0 + rng.choice([0.31, 0.7]) for t in range(3))]
    f = [a, b, len(m.V) - 1]
    rng.shuffle(f)
    k = rng.randrange(len(m.F) + 1)
    m.F = m.F[:k] + [tuple(f)] + m.F[k:]
    m.zone = m.zone[:k] + [rng.randrange(len(m.znames))] + m.zone[k:]
    m.data = m.data[:k] + [{v: 0.5 for v in m.vars}] + m.data[k:]
    return m


def case(ctx, rng, i):
    m = M.random_mesh(rng, rng.choice(['s', 's', 'm']), move=0.2)
    order = rng.choice(['used', 'sorted', 'random'])
    path = M.write_dat(m, ctx.path('ok.dat'), order=order, rng=rng)
    dat = M.Dat(path)
    if any(len(v) > 2 for v in M.LoadModel(dat).edges.values()):
        ctx.count('generated_invalid')
        return
    g = load(gsu, path)
    compare_loaded(ctx, g, dat, True, 'intact file')
    ctx.count('accepted_intact')
    d = Doc(open(path).read())
    used = []
    for kind in rng.sample(KINDS, 4):
        bad = ctx.path('bad.dat')
        if kind == 'third face on an edge':
            m2 = third_face(rng, m)
            if m2 is None:
                continue
            M.write_dat(m2, bad, order=order, rng=rng)
        else:
            lines = damage(rng, kind, d, m)
            if lines is None:
                continue
            with open(bad, 'w') as f:
                f.write('\n'.join(lines) + '\n')
        g2 = g if rng.random() < 0.5 else gsu.Grid()
        with ctx.raises('a grid file with the fault "{0}"'.format(kind), key='fault-' + kind.replace(' ', '-')):
            g2.load(bad)
        used.append(kind)
        ctx.sig(kind, m.kind, len(m.F), len(m.znames))
    # The object is still usable after a rejection.
    with quiet():
        g.load(path)
    compare_loaded(ctx, g, dat, True, 'after rejections')
    ctx.sample({'kind': m.kind, 'faces': len(m.F), 'faults': used})
