"""P09: the split tool."""
import json
import os
import gsu
import split as split_tool
from vh import mesh as M, decomp as D, domains as Dm
from vh.core import quiet, run_cli, tree_bytes, Violation
from vh.loadcmp import load

RULE = ('random grid files with random names (with and without timestamps, dots, underscores) are split through the function, the '
        'command line and JSON files with random strategies, fixed zones and recovery factors; the directory is read back by an '
        'independent reader; non-trivial = new (strategy, fixed zones, interface, name kind, number of domains)')
QUICK, THOROUGH = 1800, 3600
MIN = {'splits': 120, 'domain_files_read': 300, 'domain_faces_compared': 1500, 'rejections': 150, 'fixed_zones_found': 30, 'zones named repeatedly': 20, 'fixed zones of one name': 10}


def name_of(rng):
    base = rng.choice(['grid', 'wing_1', 'a.b', 'b_000', 'x_12345678901', 'POS-2', 'n_000000000777_x', 'g_00001',
                       'wing_000000000123'])
    if rng.random() < 0.6:
        ts = '{0:012d}'.format(rng.choice([0, 1, 999, rng.randrange(10 ** 12)]))
        return base + '_' + ts, base, ts
    # A base that itself looks like having a timestamp is taken apart.
    tail = base[-13:]
    if len(tail) == 13 and tail[0] == '_' and tail[1:].isdigit():
        return base, base[:-13], tail[1:]
    return base, base, '000000000000'


def case(ctx, rng, i):
    m = M.random_mesh(rng, M.any_size(rng, 's', 'm'), nz=rng.choice([1, 2, 3, 4, 5, 11]), move=0.3, empty=0.1)
    if len(m.znames) > 2 and rng.random() < 0.15:
        # Several zones of one name.
        a, b = rng.sample(range(len(m.znames)), 2)
        m.znames[a] = m.znames[b]
    if rng.random() < 0.3:
        M.add_data(rng, m, rng.sample(Dm.FIXED_VARS, rng.randint(1, len(Dm.FIXED_VARS))))
    own_rf = 'RecoveryFactor' in m.vars
    stem, nm, ts = name_of(rng)
    src = ctx.path('in', stem + '.dat')
    M.write_dat(m, src, rng=rng)
    before = tree_bytes(os.path.dirname(src))
    g0 = load(gsu, src)
    n = len(g0.Faces)
    if n != len(m.F):
        raise Violation('loading lost faces')
    names = sorted({z.Name for z in g0.Zones})
    fixed = rng.sample(names, rng.choice([0, 0, 0, 1, 2, len(names) - 1]) % (len(names))) if len(names) > 1 else []
    held = [(z.Name, {f.GloId for f in z.Faces}) for z in g0.Zones if z.Name in fixed]
    # A zone may be named more than once (several elements of the heating system in it).
    asked = fixed + (rng.choices(fixed, k=rng.randint(1, 3)) if fixed and rng.random() < 0.25 else [])
    ctx.count('zones named repeatedly', int(len(asked) > len(fixed)))
    ctx.count('fixed zones of one name', int(len(held) > len(fixed)))
    free = n - sum(len(v) for _, v in held)
    if rng.random() < 0.5:
        k = rng.randint(0, 4)
        strategy, new = 'h{0}'.format(k), None
    else:
        k = rng.choice([1, 2, 3, rng.randint(1, max(1, free))]) + len(held)
        k = min(k, 40)
        strategy, new = 'n{0}'.format(k), k - len(held)
    rf = rng.choice([1.0, 1.0, 0.5, 0.8461, 2.0, 2, 0, 0.0, 1, -0.25])
    out = os.path.join(ctx.case_dir, 'out', 'deep')
    if rng.random() < 0.3:
        os.makedirs(out)
    how = rng.choice(['function', 'function', 'cli', 'json'])
    as_dat = rng.random() < 0.2
    target = ctx.path('res.dat') if as_dat else out
    g = None
    with quiet():
        if how == 'function':
            kw = {} if rf == 1.0 and rng.random() < 0.5 else {'recovery_factor': rf}
            if fixed or rng.random() < 0.5:
                kw['fixed_zones'] = list(asked)
            g = split_tool.split(src, None if as_dat else out, target if as_dat else None, strategy, **kw)
        else:
            conf, args = {}, []
            if fixed or rng.random() < 0.3:
                conf['heating_system'] = {'elements': [{'zone': z, 'power': 1} for z in asked]}
            if rf != 1.0 or rng.random() < 0.3:
                conf['recovery_factor'] = rf
            if how == 'json':
                conf['split_strategy'] = strategy
                if strategy == 'n1' and rng.random() < 0.5:
                    del conf['split_strategy']
            else:
                args = ['-s', strategy]
                if rng.random() < 0.5:
                    conf['split_strategy'] = 'n7'
            if conf or how == 'json':
                p = ctx.path('conf.json')
                with open(p, 'w') as f:
                    json.dump(conf, f)
                args += ['-j', p]
            run_cli('split.py', [src] + (['-o', target] if as_dat else ['-c', target]) + args)
    ctx.count('splits')
    ctx.check(tree_bytes(os.path.dirname(src)) == before, 'splitting changed the input directory')
    where = 'split {0} fixed={1} by {2}'.format(strategy, asked, how)

    rf_of = (lambda fi: m.data[fi]['RecoveryFactor']) if own_rf else (lambda fi: float(rf))
    order = [fi for z in m.by_zone() for fi in z]
    faces = [(tuple(m.V[k] for k in m.F[fi]), dict(m.data[fi], RecoveryFactor=rf_of(fi))) for fi in order]
    # Points are those of the node they were merged with.
    faces = [(tuple(tuple(float(q.P[t]) for t in range(3)) for q in g0.Faces[i].Nodes), d) for i, (_, d) in enumerate(faces)]

    if as_dat:
        d = M.Dat(target)
        zones = [(z.name, z.elements) for z in d.zones]
        got = sorted((repr(p), sorted((k, repr(v)) for k, v in x.items())) for _, p, x in d.faces())
        want = sorted((repr(p), sorted((k, repr(v)) for k, v in x.items())) for p, x in faces)
        ctx.eq(got, want, where + ': faces of the grid file')
        ids = None
    else:
        ctx.check(os.path.isfile(os.path.join(out, 'report.txt')), where + ': no report')
        ctx.eq(sorted(os.listdir(out)), sorted([x for x in os.listdir(out) if x.endswith('.cry')] + ['report.txt']),
               where + ': files in the output directory')
        cs = Dm.read_domains(ctx, out, nm, ts)
        zones = [(c.title, c.faces) for c in cs]
        ids = [set(c.gloid) for c in cs]
        Dm.whole(ctx, cs, faces, ids, where)
        for r, c in enumerate(cs):
            Dm.local_tables(ctx, c, where)
        if rng.random() < 0.5:
            Dm.borders(ctx, cs, where)
        for z, fs in held:
            ctx.check(any(c.title == z and set(c.gloid) == fs for c in cs), '{0}: fixed zone {1!r} changed'.format(where, z),
                      monitor='fixed_zones_found')
    # Promised numbers of domains.
    sizes = [s for _, s in zones]
    rest = list(zones)
    for z, fs in held:
        ctx.check((z, len(fs)) in rest, '{0}: no zone {1!r} of {2} faces'.format(where, z, len(fs)))
        rest.remove((z, len(fs)))
    rest = [s for _, s in rest]
    if strategy == 'h0' or strategy == 'n1':
        ctx.eq(rest, [free], where + ': one domain')
    elif new is not None:
        ctx.eq(len(sizes), k, where + ': number of domains')
        ctx.eq(sorted(rest), D.balanced(free, new), where + ': sizes of domains')
    else:
        ctx.check(len([s for s in rest if s]) <= 2 ** k, where + ': too many domains')
        if free and D.distinct_centers(g0, [f for f in g0.Faces if f.Zone.Name not in fixed]):
            want = sorted(s for s in D.hier_sizes(free, k + 1) if s)
            ctx.eq(sorted(s for s in rest if s), want, where + ': sizes of domains')
            if free >= 2 ** k:
                ctx.eq(len(zones), 2 ** k + len(held), where + ': number of domains')
    if g is not None:
        ctx.eq([(z.Name, len(z.Faces)) for z in g.Zones], zones, where + ': returned grid')

    # Errors.
    def refuse(what, *a, **kw):
        bad_out = os.path.join(ctx.case_dir, 'bad')
        with ctx.raises('splitting with ' + what, key='accepts-' + what.replace(' ', '-')):
            split_tool.split(a[0], bad_out, None, a[1], **kw)
        ctx.check(not os.path.isdir(bad_out) or not [x for x in os.listdir(bad_out) if x.endswith('.cry')],
                  'domain files were written in spite of ' + what)
    which = rng.randrange(8)
    if which == 0:
        other = ctx.path('w', stem + rng.choice(['.txt', '.DAT', '', '.dat.bak']))
        M.write_dat(m, other)
        refuse('a wrong extension', other, strategy)
    elif which == 1:
        refuse('a missing file', ctx.path('in', 'none.dat'), strategy)
    elif which == 2:
        refuse('an unknown zone', src, strategy, fixed_zones=names[:1] + ['no such zone'])
    elif which == 3:
        refuse('an unknown strategy', src, rng.choice(['z', 'x3', 'H2', '3']))
    elif which == 4:
        refuse('zero domains', src, 'n0')
    elif which in (5, 6):
        # The command line: one and only one kind of output, and the configuration has to be there.
        bad, dat = os.path.join(ctx.case_dir, 'bad'), ctx.path('w', 'bad.dat')
        what, args = rng.choice([('no output', []), ('two outputs', ['-c', bad, '-o', dat]),
                                 ('a missing configuration', ['-c', bad, '-j', ctx.path('w', 'none.json')])])
        with ctx.raises('command line of split with ' + what):
            run_cli('split.py', [src, '-s', 'n1'] + args)
        ctx.check(not os.path.isdir(bad) and not os.path.exists(dat), 'files were written in spite of ' + what)
    else:
        q = rng.sample(names, rng.randint(1, len(names)))
        c = len([z for z in g0.Zones if z.Name in q])
        refuse('too many fixed zones', src, 'n{0}'.format(rng.randint(1, c)), fixed_zones=q)
    ctx.sig(strategy, len(fixed), how, as_dat, ts != '000000000000', len(zones))
    ctx.sample({'file': stem, 'strategy': strategy, 'fixed': fixed, 'how': how, 'zones': zones[:6]})
