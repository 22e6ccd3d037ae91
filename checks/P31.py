"""
P31: every rank runs its own copy of the exchange code on its own copy of the split grid; a simulated message passing world decides
when buffers are read and written and who goes on. Values on both sides of domain borders are compared afterwards.
"""
import os

import numpy as np

from vh import mesh as M, mpisim
from vh.core import SRC, Violation, quiet, use_repo

RULE = 'distinct (ranks, neighbours of ranks, policy of the scheduler, eagerness, length of the sequence of variables, border lengths)'
QUICK, THOROUGH = 1200, 12000
MIN = {'exchanges': 700, 'values on borders': 7000, 'messages': 4000, 'network events': 8000, 'own values kept': 30000, 'schedules': 100,
       'several variables': 100, 'border lists': 300, 'programs': 40, 'values after the program': 4000}
ASSUMPTIONS = ['Every process has loaded and split the same grid file, so identifiers of faces agree (as the program does).',
               'Zones have marked their own faces by the zone identifier before the first exchange (as the program does).']
POLICIES = ['random', 'random', 'net first', 'net last', 'deliver late', 'capture late', 'starve', 'one by one']
VARS = ['T', 'Hw', 'Hi']


def grid_file(ctx, rng, size=None):
    m = M.random_shape(rng, size or rng.choice(['s', 'm', 'm']))
    M.add_zones(rng, m)
    M.add_data(rng, m, list(M.STD_VARS))
    p = ctx.path('in', 'grid.dat')
    M.write_dat(m, p)
    return m, p


def split_ranks(ctx, rng, path, nfaces, most=7):
    """Copies of the program and of the split grid, one per rank."""
    n = min(rng.choice([1, 2, 3, 3, 4, 5, most]), nfaces)
    if rng.random() < 0.05:
        # Names of zones do not sort by rank any more.
        n = min(rng.randint(11, 14), nfaces)
    st = 'n{0}'.format(n)
    if rng.random() < 0.25:
        st = 'h{0}'.format(rng.choice([1, 2, 3]))
    # Zones kept as they are make domains of very different sizes.
    names = [z.name for z in M.Dat(path).zones]
    fixed = []
    if len(names) > 1 and len(set(names)) == len(names) and rng.random() < 0.5:
        fixed = rng.sample(names, rng.randint(1, min(2, len(names) - 1)))
        if st[0] == 'n':
            st = 'n{0}'.format(len(fixed) + rng.choice([1, 1, 2, 3]))
    mods, r = [], 0
    while True:
        mod = mpisim.load_rank(SRC, r)
        d = os.path.dirname(ctx.path('cry{0}'.format(r), 'x'))
        with quiet():
            g = mod.split(path, cry_dir=d, out_dat_file=ctx.path('cry{0}'.format(r), 'res.dat'), split_strategy=st, fixed_zones=fixed)
        mod.g, mod.root, mod.FILENAME = g, 0, path
        if len(g.Zones) > 14:
            return None
        mod.z = g.Zones[r]
        mod.vh_strategy = dict(split_strategy=st, fixed_zones=fixed)
        mods.append(mod)
        r += 1
        if r == len(g.Zones):
            return mods


def case(ctx, rng, i):
    use_repo()
    if i % 6 == 5:
        return program(ctx, rng)
    from gsu.zones_adjacency_matrix import ZonesAdjacencyMatrix
    m, p = grid_file(ctx, rng)
    mods = split_ranks(ctx, rng, p, len(m.F))
    if mods is None:
        ctx.trivial += 1
        return
    n = len(mods)
    world = mpisim.World(n, rng, rng.choice(POLICIES), rng.choice([0.0, 0.5, 1.0]))
    zone = {}
    for r, mod in enumerate(mods):
        mod.comm = world.comms[r]
        zone[r] = {id(f): k for k, z in enumerate(mod.g.Zones) for f in z.Faces}
    zof = [zone[0][id(f)] for f in mods[0].g.Faces]
    # Sequence of exchanges: the same for all.
    seq = [rng.choice(VARS) for _ in range(rng.choice([1, 2, 3, 3, 6]))]
    if rng.random() < 0.5:
        seq = VARS[:len(seq)] + seq[3:]
    value = lambda r, step, f, v: float(rng_val(r, step, f.GloId, v))
    salt = rng.random()

    def rng_val(r, step, gid, v):
        return (salt + 1) * 1e6 * (1 + r) + 1e4 * step + gid + {'T': 0.25, 'Hw': 0.5, 'Hi': 0.75}[v]
    borders = []
    for r, mod in enumerate(mods):
        zam = ZonesAdjacencyMatrix(mod.g.Edges, mod.g.Zones)
        b = mod.get_mpi_borders(r, zam, mod.z, mod.g)
        judge_borders(ctx, r, mod, b, zone[r])
        borders.append(b)
    extra = rng.choice([0, 0, 3])
    final = [{} for _ in mods]

    def rank(r):
        mod = mods[r]
        b = borders[r]
        w = max([len(x) for x in b.values()] + [0]) + extra
        s, t = np.full((len(b), w), np.nan), np.full((len(b), w), np.nan)
        for f in mod.z.Faces:
            f.Zone = mod.z.Id
        for step, v in enumerate(seq):
            # Own values of the step; values of others stay as they are.
            for f in mod.z.Faces:
                f.Data[v] = rng_val(r, step, f.GloId, v)
            before = {f.GloId: dict(f.Data) for f in mod.g.Faces}
            mod.exchange(b, s, t, v)
            judge(ctx, mod, r, zone[r], zof, v, before, lambda o, gid: rng_val(o, step, gid, v), n)
            ctx.count('exchanges')
            # The next step may begin at once: another process may still be in this one.

    try:
        with quiet():
            world.run([(lambda r=r: rank(r)) for r in range(n)])
    except mpisim.Failure as e:
        raise Violation('{0} ranks, {1}: {2}'.format(n, world.policy, e), 'messages')
    ctx.count('messages', len(world.sends))
    ctx.count('network events', world.events)
    ctx.count('schedules')
    ctx.count('several variables', int(len(seq) > 1))
    ctx.sig(n, [len(b) for b in borders], world.policy, world.eager, len(seq), max([len(x) for b in borders for x in b.values()] + [0]) // 4)
    ctx.counters['distinct schedules'] = len(SEEN)
    SEEN.add(hash(tuple(world.schedule)))
    ctx.counters['distinct schedules'] = len(SEEN)
    ctx.sample({'ranks': n, 'policy': world.policy, 'eager': world.eager, 'variables': seq, 'steps of the schedule': len(world.schedule),
                'borders': [{k: len(v) for k, v in b.items()} for b in borders]})


SEEN = set()


class Program:
    """The whole program (its main part) run by every rank of a simulated world on a small grid that stands in place of the sample."""

    def __init__(self, ctx, rng):
        import remeshing
        import split as split_tool
        use_repo()
        self.ctx, self.rng = ctx, rng
        self.n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        w = os.path.dirname(ctx.path('w', 'crysgsu', 'x'))
        self.grid = os.path.join(w, '..', 'cases', 'grids', 'bunny.dat')
        os.makedirs(os.path.dirname(self.grid))
        while True:
            self.m = M.random_shape(rng, rng.choice(['s', 'm', 'm']))
            if len(self.m.F) >= self.n:
                break
        M.add_zones(rng, self.m)
        M.add_data(rng, self.m, list(M.STD_VARS), value=lambda r: r.uniform(-50, 50))
        M.write_dat(self.m, self.grid)
        with open(self.grid[:-4] + '.json', 'w') as f:
            f.write('{}')
        self.salt = rng.random()
        self.grids = [None] * self.n
        self.swims = [[] for _ in range(self.n)]
        self.calls = []
        self.out = os.path.join(w, '..', 'remeshed.dat')
        world = mpisim.World(self.n, rng, rng.choice(POLICIES), rng.choice([0.0, 0.5, 1.0]))
        self.world = world
        prog = self
        real = split_tool.split, remeshing.TongRemesher

        def split(*a, **k):
            """The grid of a rank: what others will compute is not known yet."""
            g = real[0](*a, **k)
            r = mpisim._local.comm.rank
            own = {id(f) for f in g.Zones[r].Faces}
            for f in g.Faces:
                for v in VARS:
                    f.Data[v] = prog.value(r, f.GloId, v) if id(f) in own else -1e9 - r
            prog.grids[r] = g
            prog.zone = {f.GloId: k for k, z in enumerate(g.Zones) for f in z.Faces}
            return g

        class Remesher(remeshing.TongRemesher):
            def __call__(self, g):
                prog.calls.append((mpisim._local.comm.rank, g, [dict(f.Data) for f in g.Faces]))

        def hi(*a):
            r = mpisim._local.comm.rank
            prog.swims[r].append([np.array(x) for x in a])
            t, h, q = a
            h[:] = t * 1e-3 + q * 1e-6
        saved, cwd = (split_tool.split, remeshing.TongRemesher), os.getcwd()
        try:
            split_tool.split, remeshing.TongRemesher = split, Remesher
            os.chdir(w)
            with quiet(), mpisim.fakes(hi):
                code = mpisim.main_code(SRC)
                names = {'__name__': '__main__', '__file__': os.path.join(SRC, 'crys.py'), '__builtins__': __builtins__}
                world.run([(lambda: exec(code, dict(names))) for r in range(self.n)])
        except mpisim.Failure as e:
            raise Violation('the program with {0} ranks, {1}: {2}'.format(self.n, world.policy, e), 'messages')
        finally:
            split_tool.split, remeshing.TongRemesher = saved
            os.chdir(cwd)

    def value(self, r, gid, v):
        return (self.salt + 1) * 1e3 * (1 + r) + gid + {'T': 0.25, 'Hw': 0.5, 'Hi': 0.75}[v]


def program(ctx, rng):
    """Values across borders after the main part of the program."""
    p = Program(ctx, rng)
    for r, g in enumerate(p.grids):
        ctx.check(g is not None and len(g.Zones) == p.n, '{0} ranks, but {1} zones'.format(p.n, g and len(g.Zones)), 'program')
        zone = {id(f): k for k, z in enumerate(g.Zones) for f in z.Faces}
        ghosts = {id(f) for e in g.Edges if r in {zone[id(x)] for x in e.Faces} for f in e.Faces if zone[id(f)] != r}
        for f in g.Faces:
            o = zone[id(f)]
            for v in VARS:
                if r == 0 and v == 'Hi':
                    # Gathered heights are set there.
                    continue
                want = p.value(o, f.GloId, v) if o == r or id(f) in ghosts else -1e9 - r
                ctx.count('values after the program')
                ctx.check(f.Data[v] == want, lambda: 'the program with {0} ranks: rank {1} has {2} = {3!r} on face {4} of rank {5}, expected {6!r}'
                          .format(p.n, r, v, f.Data[v], f.GloId, o, want), 'program')
    ctx.count('programs')
    ctx.sig('program', p.n, p.world.policy, p.world.eager, len(p.m.F) // 20)


SEEN = set()


def judge_borders(ctx, r, mod, b, zone):
    want = {}
    for k, e in enumerate(mod.z.Edges):
        if len(e.Faces) == 2:
            o = [zone[id(f)] for f in e.Faces if zone[id(f)] != r]
            if len(o) == 1:
                want.setdefault(o[0], set()).add(k)
    ctx.count('border lists', len(want))
    ctx.eq(sorted(b), sorted(want), 'neighbours of rank {0}'.format(r))
    for k in want:
        ctx.eq(sorted(b[k]), sorted(want[k]), 'border of ranks {0} and {1}'.format(r, k))


def judge(ctx, mod, r, zone, zof, v, before, val, n):
    ghosts = set()
    for e in mod.z.Edges:
        if len(e.Faces) == 2:
            for f in e.Faces:
                if zone[id(f)] != r:
                    ghosts.add(id(f))
    for f in mod.g.Faces:
        if id(f) in ghosts:
            o = zof[f.GloId]
            ctx.count('values on borders')
            got, want = f.Data[v], val(o, f.GloId)
            if not got == want:
                raise Violation('rank {0} of {1}: {2} of face {3} on the border is {4!r}, its owner {5} has {6!r}'.format(
                    r, n, v, f.GloId, got, o, want), 'halo')
        else:
            ctx.count('own values kept')
            if before[f.GloId][v] != f.Data[v]:
                raise Violation('rank {0} of {1}: {2} of face {3}, which is not across a border, changed'.format(r, n, v, f.GloId), 'kept')
        for k, x in f.Data.items():
            if k != v and not (before[f.GloId][k] == x):
                raise Violation('rank {0} of {1}: {2} of face {3} changed while {4} was exchanged'.format(r, n, k, f.GloId, v), 'kept')
