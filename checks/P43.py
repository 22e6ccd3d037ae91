"""P43: zones of the decompositions have the promised shape."""
import math
import gsu
import split as split_tool
from vh import mesh as M, decomp as D
from vh.core import quiet
from vh.loadcmp import load

RULE = ('random surfaces with random zones get hierarchical decompositions level by level (default, axis, oblique, distance, spread, '
        'number, constant and discrete sign functions in any order, random fixed zones) and breadth-first decompositions into '
        'random numbers of zones, directly and through the split tool; a monitor finds for every zone that was halved which '
        'of the functions explain the halves and counts the border edges each function would give, and for every grown zone a '
        'face from which it is grown layer by layer; non-trivial = new (family, faces, method, functions, count, fixed zones)')
QUICK, THOROUGH = 2400, 12000
MIN = {'zones halved': 3000, 'borders compared': 5000, 'zones left whole': 300, 'zones grown': 3000, 'zones cut from a component': 800,
       'zones continued': 500, 'with fixed zones': 400, 'through the split tool': 150}


def functions(rng, g):
    """Sign functions: (name, function)."""
    d = [rng.uniform(-1, 1) for _ in range(3)]
    c = [rng.uniform(-2, 2) for _ in range(3)]
    number = {id(f): i for i, f in enumerate(g.Faces)}
    shuffled = list(range(len(g.Faces)))
    rng.shuffle(shuffled)
    step = rng.choice([0.3, 0.7, 2.0])
    return [('x', lambda f: f.get_center()[0]), ('y', lambda f: f.get_center()[1]), ('z', lambda f: f.get_center()[2]),
            ('-x', lambda f: -f.get_center()[0]),
            ('oblique', lambda f: sum(a * float(f.get_center()[k]) for k, a in enumerate(d))),
            ('distance', lambda f: sum((float(f.get_center()[k]) - a) ** 2 for k, a in enumerate(c))),
            ('spread', lambda f: max(float(a.P[0]) for a in f.Nodes) - min(float(a.P[0]) for a in f.Nodes)),
            ('number', lambda f: number[id(f)]),
            ('shuffled', lambda f: shuffled[number[id(f)]]),
            ('constant', lambda f: 1),
            ('discrete', lambda f: math.floor(float(f.get_center()[0]) / step)),
            ('two values', lambda f: int(number[id(f)] % 3 == 0))]


def links(g):
    """Positions of neighbours of every face, once for every common edge."""
    pos = {id(f): i for i, f in enumerate(g.Faces)}
    nb = [[] for _ in g.Faces]
    for e in g.Edges:
        fs = [pos[id(f)] for f in e.Faces]
        if len(fs) == 2:
            nb[fs[0]].append(fs[1])
            nb[fs[1]].append(fs[0])
    return nb


def border(nb, left, right):
    return sum(1 for f in left for x in nb[f] if x in right)


def median_halves(vals, faces):
    """Faces before the median, and others."""
    s = sorted(vals[f] for f in faces)
    blade = s[len(s) // 2]
    return {f for f in faces if vals[f] < blade}, {f for f in faces if not vals[f] < blade}


def explains(vals, left, right):
    """The left ones are all before the right ones and the cut is at a median."""
    first = min(vals[f] for f in right)
    return max(vals[f] for f in left) < first and 2 * len(left) <= len(left) + len(right) \
        and 2 * (len(left) + sum(1 for f in right if vals[f] == first)) >= len(left) + len(right)


def halved(ctx, nb, values, whole, parts, where):
    """One zone of the level above and its pieces in the next one."""
    options = [median_halves(v, whole) for v in values] if len(whole) > 1 else []
    lengths = [border(nb, a, b) if a else math.inf for a, b in options]
    if len(parts) == 1:
        ctx.check(all(x == math.inf for x in lengths), '{0}: a zone of {1} faces is left whole'.format(where, len(whole)),
                  monitor='zones left whole')
        return
    ctx.eq(len(parts), 2, '{0}: pieces of a zone'.format(where))
    found = [k for k, v in enumerate(values) if explains(v, *parts) or explains(v, *parts[::-1])]
    ctx.check(found, '{0}: no function explains halves of {1} and {2} faces'.format(where, len(parts[0]), len(parts[1])),
              monitor='zones halved')
    got = border(nb, *parts)
    ctx.check(got <= min(lengths), '{0}: {1} edges between halves of {2} and {3} faces; the functions give {4}'.format(
        where, got, len(parts[0]), len(parts[1]), lengths))
    ctx.count('borders compared', sum(1 for x in lengths if x < math.inf))


def components(nb, free):
    left, out = set(free), []
    while left:
        c = layers(nb, left, min(left))
        out.append(set(c))
        left -= set(c)
    return out


def layers(nb, free, start):
    """Distances from the start over the given faces."""
    dist = {start: 0}
    p = [start]
    for f in p:
        for x in nb[f]:
            if x in free and x not in dist:
                dist[x] = dist[f] + 1
                p.append(x)
    return dist


def grown(ctx, nb, zones, fixed, where):
    free = set(range(len(nb))) - fixed
    starts = set()
    for k, z in enumerate(zones):
        if not z:
            continue
        w = '{0}: zone {1} of {2} faces'.format(where, k, len(z))
        ctx.count('zones grown')
        comps = [c for c in components(nb, free) if c & z]
        cut = [c for c in comps if not c <= z]
        ctx.check(len(cut) <= 1, '{0} is in pieces: it has some faces of {1} connected free regions'.format(w, len(cut)))
        if starts:
            ctx.check(starts & z, '{0} does not go on from the end of the one before'.format(w))
            ctx.count('zones continued', int(k > 0))
        nxt = set()
        if cut:
            c = cut[0]
            p = c & z
            ctx.count('zones cut from a component')
            at = p if not starts or any(starts & d for d in comps if d is not c) else p & starts
            ok = False
            for s in sorted(at):
                d = layers(nb, c, s)
                if max(d[f] for f in p) <= min(d[f] for f in c - p):
                    ok = True
                    break
            ctx.check(ok, '{0}: {1} of {2} faces of a region are not the nearest ones to any of {3} possible starts'.format(
                w, len(p), len(c), len(at)))
            nxt = {f for f in c - p if any(x in p for x in nb[f])}
        free -= z
        starts = nxt


def case(ctx, rng, i):
    m = M.random_mesh(rng, M.any_size(rng, 's', 's', 'm'), nz=rng.choice([1, 2, 3, 5]), move=0.3, empty=0.1)
    src = M.write_dat(m, ctx.path('a.dat'), rng=rng)
    g = load(gsu, src)
    n = len(g.Faces)
    nb = links(g)
    names = sorted({z.Name for z in g.Zones})
    hist = []
    for step in range(rng.randint(1, 2)):
        tool = rng.random() < 0.15
        names = sorted({z.Name for z in (gsu_zones(src) if tool else g.Zones)})
        # New zones of these names would be fixed as well in the next decomposition.
        names = [x for x in names if x[:1] != 'h' and x[:6] != 'farhat']
        fixed = rng.sample(names, rng.randint(0, len(names) - 1)) if names and rng.random() < 0.5 else []
        ctx.count('with fixed zones', int(bool(fixed)))

        def zones(method, count, **kw):
            """Faces of the new zones, by their places in the list of faces; and those of fixed zones."""
            if tool:
                with quiet():
                    gg = split_tool.split(src, ctx.path('out'), None, '{0}{1}'.format(method[0], count), fixed_zones=list(fixed))
                ctx.count('through the split tool')
            else:
                gg = g
                with quiet():
                    if method == 'hier':
                        gg.decompose_hierarchical(levels=count + 1, fixed_zones=list(fixed), **kw)
                    else:
                        gg.decompose_farhat(count=count, fz_names=list(fixed))
            pos = {id(f): k for k, f in enumerate(gg.Faces)}
            sets = [(z.Name in fixed, {pos[id(f)] for f in z.Faces}) for z in gg.Zones]
            return [s for h, s in sets if not h], set().union(*[s for h, s in sets if h])
        if rng.random() < 0.55:
            every = functions(rng, g)
            if tool or rng.random() < 0.4:
                fs, kw = every[:3], {}
            else:
                fs = rng.sample(every, rng.randint(1, 5))
                kw = {'extract_signs_funs': [f for _, f in fs]}
            values = [[f(x) for x in g.Faces] for _, f in fs]
            levels = rng.choice([1, 2, 3, 4, 5])
            above, held = zones('hier', 0, **kw)
            what = 'hierarchical({0}) of {1} faces of {2} fixing {3}'.format([a for a, _ in fs], n, m.kind, fixed)
            ctx.eq([sorted(x) for x in above if x], [sorted(set(range(n)) - held)] if len(held) < n else [], what + ': one zone')
            for k in range(1, levels + 1):
                here, _ = zones('hier', k, **kw)
                for w in above:
                    if w:
                        parts = [z for z in here if z & w]
                        ctx.eq(set().union(*parts), w, '{0}, level {1}: pieces of a zone'.format(what, k + 1))
                        halved(ctx, nb, values, w, parts, '{0}, level {1}'.format(what, k + 1))
                above = here
            ctx.sig(m.kind, n, 'h', [a for a, _ in fs], levels, len(fixed))
            hist.append(what)
        else:
            if tool:
                nf = sum(1 for z in gsu_zones(src) if z.Name in fixed)
                count = rng.randint(1, 12) + nf
                if count == 1:
                    count = 2
            else:
                count = rng.choice([1, 2, 3, 4, 7, rng.randint(1, n), max(1, n // 3), n + 1])
            new, held = zones('n', count)
            what = 'breadth-first({0}) of {1} faces of {2} fixing {3}'.format(count, n, m.kind, fixed)
            grown(ctx, nb, new, held, what)
            ctx.sig(m.kind, n, 'n', count, len(fixed))
            hist.append(what)
    ctx.sample({'kind': m.kind, 'faces': n, 'history': hist})


def gsu_zones(src):
    return load(gsu, src).Zones
