"""
P32: heights computed by ranks are gathered through a simulated message passing world by the real code; what the remesher is given and
what is stored are compared with what the owners computed. Real processes run the whole program, too.
"""
import json
import os
import shutil
import subprocess
import sys

import numpy as np

from checks.P31 import POLICIES, Program, grid_file, split_ranks
from vh import bodies as B
from vh import loadcmp
from vh import mesh as M, mpisim
from vh.core import SRC, HarnessError, Violation, quiet, use_repo

RULE = 'distinct (ranks, sizes of zones equal or not, remesher real or recorded, policy, shape of arrays, faces bucket)'
QUICK, THOROUGH = 840, 8000
MIN = {'gatherings': 150, 'heights given to the remesher': 4000, 'unequal zones': 60, 'real remeshing': 25, 'heights which become zero': 200, 'stored nodes': 3000,
       'stored faces': 5000, 'other values kept': 20000, 'heights of the main part': 800,
       'given to the native update': 100}
ASSUMPTIONS = ['Every process has loaded and split the same grid file (as the program does).',
               'Real processes are run where this machine lets mpiexec start; the native update is replaced there by a formula.']


class Recorder:
    """Stands in place of the remesher: records heights, then either remeshes for good or moves the grid in a known way."""

    def __init__(self, real, light):
        self.real, self.light, self.calls = real, light, []

    def cls(self):
        rec = self

        class Remesher(self.real):
            def __call__(self, g):
                rec.calls.append((id(g), [dict(f.Data) for f in g.Faces], (self.mesh_filename, self.json_file, self.outdir)))
                if rec.light:
                    from geom.vect import Vect
                    for n in g.Nodes:
                        n.P = Vect(n.P[0] + 0.5, n.P[1] * 2.0, n.P[2] - 0.25)
                    return None
                return super().__call__(g)
        return Remesher


def main_part(ctx, rng):
    """Heights computed by the native update in the main part of the program."""
    p = Program(ctx, rng)
    ctx.eq(len(p.calls), 1, 'the program with {0} ranks: calls of the remesher'.format(p.n))
    r, g, data = p.calls[0]
    ctx.check(r == 0 and g is p.grids[0], 'the remesher is called by rank {0}'.format(r), 'grid')
    for k, f in enumerate(g.Faces):
        o = p.zone[f.GloId]
        want = p.value(o, f.GloId, 'T') * 1e-3 + p.value(o, f.GloId, 'Hw') * 1e-6
        ctx.count('heights of the main part')
        ctx.check(abs(data[k]['Hi'] - want) <= 1e-12 * want, lambda: 'the program with {0} ranks: face {1} of rank {2} gets the height {3!r}, '
                  'its owner computed {4!r}'.format(p.n, f.GloId, o, data[k]['Hi'], want), 'height')
    for r, s in enumerate(p.swims):
        ctx.eq(len(s), 1, 'native updates of rank {0}'.format(r))
        for v, x in zip(('T', 'Hi', 'Hw'), s[0]):
            ctx.eq([float(y) for y in x], [p.value(r, f.GloId, v) for f in p.grids[r].Zones[r].Faces],
                   'values of {0} given to the native update by rank {1}'.format(v, r), 'given', monitor='given to the native update')
    d = M.Dat(p.out)
    ctx.eq([len(z.conn) for z in d.zones], [len(z.Faces) for z in g.Zones], 'faces stored by the program')
    ctx.sig('main part', p.n, p.world.policy, p.world.eager, len(p.m.F) // 20)


def case(ctx, rng, i):
    if i % 8 == 7:
        return main_part(ctx, rng)
    import gsu
    import remeshing
    use_repo()
    light = rng.random() < 0.75
    opts = None
    if light:
        m, p = grid_file(ctx, rng)
    else:
        kind, closed, V, F = B.any_body(rng)
        m = B.make(rng, V, F, [rng.choice([0.0, rng.uniform(0.0, 0.1)]) for _ in F])
        p = ctx.path('in', 'grid.dat')
        M.write_dat(m, p)
        if rng.random() < 0.7:
            opts = ctx.path('in', 'o.json')
            with open(opts, 'w') as f:
                json.dump(B.options(rng), f)
    mods = split_ranks(ctx, rng, p, len(m.F), most=8)
    if mods is None:
        ctx.trivial += 1
        return
    n = len(mods)
    world = mpisim.World(n, rng, rng.choice(POLICIES), rng.choice([0.0, 0.5, 1.0]))
    out = ctx.path('out', 'remeshed.dat')
    zone = {f.GloId: k for k, z in enumerate(mods[0].g.Zones) for f in z.Faces}
    scale = rng.choice([0.02, 0.1])
    heights, arrays = {}, []
    flat = rng.random() < 0.4
    marked = rng.random() < 0.5
    for r, mod in enumerate(mods):
        mod.comm, mod.JSON, mod.OUTDIR, mod.OUT_REMESHED_MESH = world.comms[r], opts, os.path.dirname(out), out
        a = []
        for f in mod.z.Faces:
            h = scale * (1 + r + f.GloId / 1000.0) / (n + 1) if rng.random() < 0.9 else 0.0
            ctx.count('heights which become zero', int(h == 0.0 and f.Data['Hi'] != 0.0))
            heights[f.GloId] = h
            a.append(h)
        a = np.array(a, dtype=np.float64)
        arrays.append(a if flat else a.reshape(1, -1))
    sizes = [len(mod.z.Faces) for mod in mods]
    before = [dict(f.Data) for f in mods[0].g.Faces]
    rec = Recorder(remeshing.TongRemesher, light)
    cls = rec.cls()
    real = remeshing.TongRemesher
    remeshing.TongRemesher = cls
    for mod in mods:
        if hasattr(mod, 'TongRemesher'):
            mod.TongRemesher = cls

    def rank(r):
        mod = mods[r]
        if marked:
            for f in mod.z.Faces:
                f.Zone = mod.z.Id
        mod.remesh(r, arrays[r])
    try:
        with quiet():
            world.run([(lambda r=r: rank(r)) for r in range(n)])
    except mpisim.Failure as e:
        raise Violation('{0} ranks, zones of {1} faces, {2}: {3}'.format(n, sizes, world.policy, e), 'messages')
    finally:
        remeshing.TongRemesher = real
    ctx.count('gatherings')
    ctx.count('unequal zones', int(len(set(sizes)) > 1))
    ctx.eq(len(rec.calls), 1, 'calls of the remesher')
    gid, data, names = rec.calls[0]
    g = mods[0].g
    ctx.check(gid == id(g), 'the remesher is given another grid than the whole one of the root', 'grid')
    ctx.eq(names, (p, opts, os.path.dirname(out)), 'files given to the remesher')
    ctx.eq(len(data), len(before), 'faces given to the remesher')
    for k, d in enumerate(data):
        ctx.count('heights given to the remesher')
        ctx.check(d['Hi'] == heights[k], lambda: '{0} ranks, zones of {1} faces: face {2} of zone {3} is given the height {4!r}, its owner '
                  'computed {5!r}'.format(n, sizes, k, zone[k], d['Hi'], heights[k]), 'height')
        for v, x in before[k].items():
            if v != 'Hi':
                ctx.count('other values kept')
                ctx.check(d[v] == x, lambda: '{0} of face {1} changed from {2!r} to {3!r}'.format(v, k, x, d[v]), 'kept')
    # What is stored is the whole grid after remeshing.
    if light:
        ref = [[(nd.P[0], nd.P[1], nd.P[2]) for nd in f.Nodes] for f in g.Faces]
    else:
        ctx.count('real remeshing')
        ref = reference(ctx, rng, p, opts, out, mods, heights)
    d = M.Dat(out)
    ctx.eq([z.name for z in d.zones], [z.Name for z in g.Zones], 'zones stored')
    ctx.eq(sum(len(z.conn) for z in d.zones), len(before), 'faces stored')
    for z, gz, k in zip(d.zones, g.Zones, range(n)):
        ctx.eq(len(z.conn), len(gz.Faces), 'faces of zone {0} stored'.format(z.name))
        for x, f in zip(range(len(z.conn)), gz.Faces):
            ctx.count('stored faces')
            pts = [z.pts[q - 1] for q in z.conn[x]]
            for q, pt in enumerate(pts):
                ctx.count('stored nodes')
                w = ref[f.GloId][q]
                ctx.check(near(pt, w, 1e-12 if light else 1e-7), lambda: 'face {0}: stored node {1}, remeshing with the heights of the '
                          'owners gives {2}'.format(f.GloId, pt, w), 'stored')
            if light:
                ctx.check(M.same_float(float(z.data['Hi'][x]), heights[f.GloId]),
                          lambda: 'face {0}: stored height {1!r}, computed {2!r}'.format(f.GloId, z.data['Hi'][x], heights[f.GloId]), 'height')
    ctx.sig(n, len(set(sizes)) > 1, light, world.policy, flat, len(before) // 30)
    ctx.sample({'ranks': n, 'sizes': sizes, 'policy': world.policy, 'real': not light})


def near(a, b, tol=1e-12):
    return all(abs(x - y) <= tol * max(1.0, abs(x), abs(y)) for x, y in zip(a, b))


def reference(ctx, rng, p, opts, out, mods, heights):
    """Points of faces after remeshing a fresh copy with the heights of the owners."""
    import remeshing
    mod = mpisim.load_rank(SRC, 99)
    with quiet():
        # The same split as the ranks have done.
        g = mod.split(p, cry_dir=os.path.dirname(ctx.path('ref', 'x')), out_dat_file=ctx.path('ref', 'res.dat'),
                      **mods[0].vh_strategy)
        for f in g.Faces:
            f.Data['Hi'] = heights[f.GloId]
        remeshing.TongRemesher(mesh_filename=p, json_file=opts, outdir=os.path.dirname(ctx.path('ref', 'x')))(g)
    return [[(nd.P[0], nd.P[1], nd.P[2]) for nd in f.Nodes] for f in g.Faces]


# --- the whole program by real processes -----------------------------------------------------------------------------------------


def mpi_env(tmp):
    return dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1',
                OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm_rsh_agent='', PYTHONDONTWRITEBYTECODE='1', TMPDIR=tmp,
                OMP_NUM_THREADS='1')


def mpi_run(n, script, cwd, tmp, timeout=100):
    return subprocess.run(['mpiexec', '--oversubscribe', '-n', str(n), sys.executable, '-B', script], cwd=cwd, env=mpi_env(tmp),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)


def can(ctx):
    """mpiexec starts here."""
    if not hasattr(ctx, 'mpi'):
        d = os.path.join(ctx.keep_dir, 't')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'hello.py'), 'w') as f:
            f.write('from mpi4py import MPI\nimport numpy as np\nc = MPI.COMM_WORLD\na = np.zeros(1)\n'
                    'c.Allreduce(np.ones(1), a)\nprint("sum", a[0])\n')
        try:
            p = mpi_run(2, os.path.join(d, 'hello.py'), d, d, 60)
            ctx.mpi = p.returncode == 0 and p.stdout.count('sum 2.0') == 2
        except (OSError, subprocess.TimeoutExpired):
            ctx.mpi = False
    return ctx.mpi


def setup(ctx):
    use_repo()


def fixed(ctx):
    def real(n, k):
        def run(ctx):
            import random
            if not can(ctx):
                ctx.skipped.append('real processes: mpiexec does not start here')
                return
            rng = random.Random('{0} {1} {2}'.format(ctx.seed, n, k))
            program(ctx, rng, n, n > 1 and k == 0)
        return ('{0} processes {1}'.format(n, k), run)
    plan = [(1, 0), (3, 0)] if not ctx.thorough else [(n, k) for n in (1, 2, 3, 4, 5, 7, 8) for k in range(4)]
    return [real(n, k) for n, k in plan]


def program(ctx, rng, n, large=False):
    """crys.py as a whole on a small grid that stands in place of the sample."""
    d = os.path.dirname(ctx.path('w', 'x'))
    shutil.copytree(SRC, os.path.join(d, 'crysgsu'), ignore=shutil.ignore_patterns('*.so', 'swim.py', 'cpp', '__pycache__', '*.dat'))
    # The native update: heights from the temperature of the face.
    with open(os.path.join(d, 'crysgsu', 'swim.py'), 'w') as f:
        f.write('def hi(t, h, w):\n    h[:] = t * 1e-3\n    t += 1\n    w += 3\n')
    kind, closed, V, F = B.any_body(rng)
    if large:
        V, F = B.wavy(rng, 36, 36)[-2:]
    m = B.make(rng, V, F, [0.0] * len(F))
    for x in m.data:
        x['T'] = rng.uniform(0.0, 60.0)
    p = os.path.join(d, 'cases', 'grids', 'bunny.dat')
    os.makedirs(os.path.dirname(p))
    M.write_dat(m, p)
    with open(p[:-4] + '.json', 'w') as f:
        json.dump({'remesh_nsteps_min': 1, 'remesh_nsteps_max': 1} if large else B.options(rng), f)
    try:
        r = mpi_run(n, 'crys.py', os.path.join(d, 'crysgsu'), d)
    except subprocess.TimeoutExpired:
        raise Violation('the program does not come to an end with {0} processes'.format(n), 'hang')
    ctx.check(r.returncode == 0, 'the program fails with {0} processes:\n{1}'.format(n, r.stdout[-2500:]), 'program')
    got = M.Dat(os.path.join(d, 'remeshed.dat'))
    # Reference: the same split, heights by the formula, remeshing in this process.
    import remeshing
    mod = mpisim.load_rank(SRC, 98)
    with quiet():
        g = mod.split(p, cry_dir=os.path.dirname(ctx.path('ref', 'x')), out_dat_file=ctx.path('ref', 'res.dat'),
                      split_strategy='n{0}'.format(n))
        for f in g.Faces:
            f.Data['Hi'] = f.Data['T'] * 1e-3
        remeshing.TongRemesher(mesh_filename=p, json_file=p[:-4] + '.json', outdir=os.path.dirname(ctx.path('ref', 'x')))(g)
    ctx.eq([z.name for z in got.zones], [z.Name for z in g.Zones], 'zones stored by {0} processes'.format(n))
    for z, gz in zip(got.zones, g.Zones):
        ctx.eq(len(z.conn), len(gz.Faces), 'faces of a zone stored by {0} processes'.format(n))
        for c, f in zip(z.conn, gz.Faces):
            ctx.count('stored by real processes')
            ctx.check(all(near(z.pts[q - 1], (nd.P[0], nd.P[1], nd.P[2]), 1e-7) for q, nd in zip(c, f.Nodes)),
                      lambda: '{0} processes: face {1} is stored at {2}, expected {3}'.format(
                          n, f.GloId, [z.pts[q - 1] for q in c], [str(nd.P) for nd in f.Nodes]), 'program')
    ctx.sig('program', n)
