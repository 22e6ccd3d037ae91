"""
P36: the remesh tool is run on directories with several grids, in different order, beside foreign files and files left from other runs;
every result is compared byte by byte with the result for the same grid alone, inputs are compared with their copies, and everything
the tool writes is listed.
"""
import json
import os

from vh import bodies as B
from vh import mesh as M
from vh.core import run_cli, tree_bytes, use_repo

RULE = 'distinct (number of grids, foreign files, options given, verbosity, way of naming files, output place, faces bucket)'
QUICK, THOROUGH = 180, 2400
MIN = {'tool runs': 150, 'results compared': 150, 'results compared with the library': 15, 'inputs compared': 150, 'errors': 15,
       'runs over several grids': 30}
ASSUMPTIONS = ['Results are compared in one process on one machine, so equal work gives equal bytes.']
NAMES = ['g_000000000012.dat', 'a_r_000000000012.dat', 'x.dat', 'w_r_1_r_2.dat', 'wing_1.dat', 'b.c.dat', 'r_r.dat', 'q-7_r_.dat', '_r_z.dat']


def setup(ctx):
    use_repo()


def grid(rng):
    kind, closed, V, F = B.any_body(rng)
    s = rng.choice([1.0, 1.0, 0.01, 1e-4, 50.0])
    V = [tuple(c * s for c in v) for v in V]
    side = min(B.min_side(V, f) for f in F)
    k, hi = B.ice_field(rng, V, F, 0.1 * side, rng.choice([None, None, 'zero']))
    return B.make(rng, V, F, [max(0.0, h) for h in hi])


def files(ctx, rng, where, n):
    names = rng.sample(NAMES, n)
    res = {}
    for nm in names:
        m = grid(rng)
        M.write_dat(m, ctx.path(where, nm))
        res[nm] = m
    return res


def judge_outputs(ctx, outdir, before, want, verbose, what):
    """want : {name: bytes}"""
    got = tree_bytes(outdir)
    for nm, b in want.items():
        ctx.count('results compared')
        ctx.check(nm in got, lambda: '{0}: no {1} among {2}'.format(what, nm, sorted(got)), 'missing')
        ctx.check(got[nm] == b, lambda: '{0}: {1} is not the result for this grid alone ({2} and {3} bytes)'.format(
            what, nm, len(got[nm]), len(b)), 'result')
    for nm, b in before.items():
        if nm not in want and nm in got:
            ctx.check(got[nm] == b or nm == 'report.txt', '{0}: foreign file {1} of the output directory changed'.format(what, nm), 'foreign')
        elif nm not in want:
            ctx.check(False, '{0}: foreign file {1} of the output directory is gone'.format(what, nm), 'foreign')
    if not verbose:
        extra = set(got) - set(want) - set(before)
        ctx.check(not extra, lambda: '{0}: other files are written: {1}'.format(what, sorted(extra)), 'extra')


def case(ctx, rng, i):
    import gsu
    import remeshing
    n = rng.choice([0, 1, 2, 2, 3, 3, 4])
    ms = files(ctx, rng, 'in', n)
    src = os.path.dirname(ctx.path('in', 'x'))
    foreign = 0
    for nm, text in [('note.txt', 'no grid\n'), ('list.dat.bak', 'ZONE\n'), ('data.json', '{}'), ('dat', 'x'), ('old.DAT~', '1')]:
        if rng.random() < 0.3:
            foreign += 1
            with open(ctx.path('in', nm), 'w') as f:
                f.write(text)
    opts = {} if rng.random() < 0.3 else B.options(rng)
    if rng.random() < 0.15:
        opts['remesh_nss_steps'] = rng.randint(1, 2)
    j = None
    if opts or rng.random() < 0.3:
        j = ctx.path('cfg', 'o.json')
        with open(j, 'w') as f:
            json.dump(opts, f)
    tail = ['-j', j] if j else []
    inputs = tree_bytes(src)

    # Every grid alone.
    want = {}
    for nm in ms:
        out = os.path.dirname(ctx.path('alone_' + nm, 'x'))
        run_cli('remesh.py', ['-g', os.path.join(src, nm), '-o', out] + tail)
        ctx.count('tool runs')
        t = nm.replace('_r_', '_')
        got = tree_bytes(out)
        ctx.eq(sorted(got), [t], 'files written for {0}'.format(nm))
        want[t] = got[t]
    if len(want) < len(ms):
        ctx.trivial += 1
        return
    if ms and rng.random() < 0.5:
        # The library does the same.
        nm = rng.choice(sorted(ms))
        g = gsu.Grid()
        with_quiet(lambda: g.load(os.path.join(src, nm)))
        with_quiet(lambda: remeshing.TongRemesher(nm, j, src)(g))
        p = ctx.path('lib', 'x.dat')
        with_quiet(lambda: g.store(p))
        ctx.count('results compared with the library')
        with open(p, 'rb') as f:
            ctx.check(f.read() == want[nm.replace('_r_', '_')], 'the tool and the library give different grids for {0}'.format(nm), 'library')

    # All together.
    v = rng.choice([0, 0, 1, 2, 3])
    place = rng.choice(['new', 'deep', 'existing', 'relative', 'current'])
    work = os.path.dirname(ctx.path('work', 'x'))
    before = {}
    if place == 'new':
        out, arg = os.path.join(work, 'res'), ['-o', os.path.join(work, 'res')]
    elif place == 'deep':
        out, arg = os.path.join(work, 'a', 'b', 'c'), ['-o', os.path.join(work, 'a', 'b', 'c')]
    elif place == 'existing':
        out, arg = os.path.join(work, 'res'), ['-o', os.path.join(work, 'res')]
        os.makedirs(out)
        for nm in list(want)[:1] + ['kept.dat']:
            with open(os.path.join(out, nm), 'w') as f:
                f.write('left from another run\n' * 10)
        before = tree_bytes(out)
    elif place == 'relative':
        out, arg = os.path.join(work, 'res'), ['-o', 'res']
    else:
        out, arg = work, []
    ctx.count('tool runs')
    ctx.count('runs over several grids', int(n > 1))
    d = src if rng.random() < 0.7 else os.path.relpath(src, work)
    run_cli('remesh.py', ['-d', d] + arg + tail + ['-v'] * v, cwd=work)
    if place == 'existing':
        before = {k: b for k, b in before.items() if k not in want}
    judge_outputs(ctx, out, before, want, v > 1, 'directory of {0} grids'.format(n))
    if out != work:
        inside = os.path.relpath(out, work).split(os.sep)[0]
        ctx.eq(sorted(os.listdir(work)), [inside], 'places where the tool writes')
    now = tree_bytes(src)
    ctx.count('inputs compared', len(now))
    ctx.check(now == inputs, lambda: 'the input directory changed: {0}'.format(
        sorted(k for k in set(now) | set(inputs) if now.get(k) != inputs.get(k))), 'inputs')

    # One grid, named without a directory, talking much.
    if ms and rng.random() < 0.5:
        nm = rng.choice(sorted(ms))
        one = os.path.dirname(ctx.path('one', 'x'))
        with open(os.path.join(one, nm), 'wb') as f:
            f.write(inputs[nm])
        vv = rng.choice([0, 1, 2])
        ctx.count('tool runs')
        run_cli('remesh.py', ['-g', nm, '-o', 'res'] + tail + ['-v'] * vv, cwd=one)
        t = nm.replace('_r_', '_')
        judge_outputs(ctx, os.path.join(one, 'res'), {}, {t: want[t]}, vv > 1, 'grid named without a directory')
        ctx.eq(sorted(os.listdir(one)), sorted([nm, 'res']), 'places where the tool writes')
        with open(os.path.join(one, nm), 'rb') as f:
            ctx.check(f.read() == inputs[nm], 'the input grid changed', 'inputs')

    # Errors.
    if rng.random() < 0.4:
        bad = rng.choice(['json', 'grid', 'broken'])
        eo = os.path.join(os.path.dirname(ctx.path('err', 'x')), 'res')
        with ctx.raises('remesh tool, {0}'.format({'json': 'no such JSON file', 'grid': 'no such grid',
                                                   'broken': 'broken grid in the directory'}[bad])):
            if bad == 'json':
                run_cli('remesh.py', ['-d', src, '-o', eo, '-j', os.path.join(src, 'none.json')])
            elif bad == 'grid':
                run_cli('remesh.py', ['-g', os.path.join(src, 'none.dat'), '-o', eo])
            else:
                bd = os.path.dirname(ctx.path('bad', 'x'))
                m = grid(rng)
                p = os.path.join(bd, 'g.dat')
                M.write_dat(m, p)
                with open(p) as f:
                    text = f.read().rstrip('\n').split('\n')
                with open(p, 'w') as f:
                    f.write('\n'.join(text[:-1]) + '\n')
                run_cli('remesh.py', ['-d', bd, '-o', eo])
        ctx.count('errors')
        left = tree_bytes(eo) if os.path.isdir(eo) else {}
        ctx.check(not [k for k in left if k.endswith('.dat')], lambda: 'the tool fails, but writes {0}'.format(sorted(left)), 'errors')
    ctx.sig(n, foreign, len(opts), v, place, sum(len(m.F) for m in ms.values()) // 50)
    ctx.sample({'grids': sorted(ms), 'options': opts, 'verbosity': v, 'output': place})


def with_quiet(f):
    from vh.core import quiet
    with quiet():
        return f()
