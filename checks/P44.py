"""P44: objects of different users do not touch each other."""
import os
import random

from vh import actors as X
from vh import bodies as B
from vh import mesh as M
from vh.core import Violation

RULE = ('two to four users of the library with own objects (grids from the same or different files, clouds of triangles, air fields, '
        'converters) run random sequences of operations: alone in a fresh process, in turns, one in the middle of an operation of '
        'another one (at a random call of any function of the library), and in threads that give the processor away at random calls; digests of results, output and of the whole state '
        'after every operation are compared with those of the user alone; non-trivial = new order of operations or calls')
QUICK, THOROUGH = 120, 2000
MIN = {'operations compared': 3000, 'operations in turns': 1000, 'operations inside others': 400, 'operations in threads': 1000,
       'switches of threads': 20000, 'operations that succeed': 1000, 'clouds searched': 30, 'ice grown': 30, 'files stored': 30, 'decompositions': 80}
TIMEOUT = 200
ASSUMPTIONS = ['Operations that draw random numbers by design (random decomposition, export of results) take no part.']
ROOT = None
KINDS = {'cloud': 'clouds searched', 'clouds': 'clouds searched', 'grow': 'ice grown', 'store': 'files stored', 'store_mpi': 'files stored',
         'linear': 'decompositions', 'hierarchical': 'decompositions', 'farhat': 'decompositions', 'mono': 'decompositions'}


def setup(ctx):
    global ROOT
    import gsu
    # Modules are loaded, but nothing of them has run.
    import drops, geom, remeshing, smoothing  # noqa: F401
    from convert import gsu_converter, interpolate  # noqa: F401
    from phys import laws  # noqa: F401
    ROOT = os.path.dirname(os.path.dirname(os.path.abspath(gsu.__file__)))


def case(ctx, rng, i):
    if ROOT is None:
        setup(ctx)
    n = rng.choice([2, 2, 3, 4])
    pool = []
    for k in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.5:
            kind, closed, V, F = B.any_body(rng, 's')
            m = B.make(rng, V, F, [0.0] * len(F))
        else:
            m = M.random_mesh(rng, 's')
        if rng.random() < 0.6:
            # What the converter can import.
            M.add_data(rng, m, ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ'], lambda r: r.uniform(0, 1e-3))
        pool.append(M.write_dat(m, ctx.path('in', 'm{0}.dat'.format(k)), rng=rng))
    plans = []
    # Users which do the same kinds of things meet more often.
    kinds = rng.sample(sorted(set(X.Actor.OPS)), rng.randint(1, 3)) if rng.random() < 0.5 else None
    for k in range(n):
        plans.append((rng.choices(pool, k=rng.randint(1, 2)), rng.randrange(2 ** 40), rng.randint(3, 9), kinds))
    if rng.random() < 0.2:
        # Two users do just the same.
        plans[1] = plans[0]
    tag = [0]

    def actors():
        tag[0] += 1
        return [X.Actor(ctx.path('w{0}_{1}'.format(tag[0], k), 'x')[:-2], *p) for k, p in enumerate(plans)]
    want = []
    for a in actors():
        def alone():
            a.run()
            return a.record
        end, r = X.fresh(alone)
        if end != 'done':
            raise RuntimeError('alone: {0}'.format(r))
        want.append(r)
    for how in ('turns', 'inside', 'threads'):
        group = actors()
        seed = rng.randrange(2 ** 40)
        rate = rng.choice([0.002, 0.02, 0.1])

        def together():
            if how == 'threads':
                t = X.Threads(seed, ROOT, rate)
                t.run(group)
                return [a.record for a in group], t.switches, t.order.hexdigest()[:12]
            order, deep = X.turns(group, random.Random(seed), how == 'inside', ROOT)
            return [a.record for a in group], deep, tuple(order)
        end, r = X.fresh(together)
        if end != 'done':
            raise Violation('{0}: {1}'.format(how, r), how)
        records, number, order = r
        for k, (got, w) in enumerate(zip(records, want)):
            ctx.eq(len(got), len(w), '{0}: operations of user {1}'.format(how, k))
            for j, (x, y) in enumerate(zip(got, w)):
                ctx.check(x == y, lambda: '{0}: user {1} of {2}, operation {3} ({4}) after {5}: {6} differs from that of the user alone'.format(
                    how, k, n, j, y[0], [z[0] for z in w[:j]], 'the result' if x[1] != y[1] else 'the grid'), how, 'operations compared')
        ops = sum(len(x) for x in records)
        if how == 'threads':
            ctx.count('operations in threads', ops)
            ctx.count('switches of threads', number)
        elif how == 'turns':
            ctx.count('operations in turns', ops)
        else:
            ctx.count('operations inside others', number)
        ctx.sig(how, order)
    for w in want:
        for op, _, _, end in w:
            ctx.count('operations that succeed', int(end == 'done'))
            if end == 'done' and op in KINDS:
                ctx.count(KINDS[op])
            if os.environ.get('SHOW'):
                print(op, end)
    ctx.sample({'users': n, 'operations': [[x[0] for x in w] for w in want]})
