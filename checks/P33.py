"""P33: laws over random and published tables against direct formulas; published tables against what is known of the substances."""
import math
import warnings

import numpy as np

from vh.core import use_repo

RULE = 'distinct (law, points of the table bucket, spacing, kind of values, kind of argument)'
QUICK, THOROUGH = 6300, 30000
MIN = {'table points': 5000, 'points between': 6000, 'arrays': 200, 'constants': 150, 'fits': 150, 'fitted points': 1500, 'published values': 100,
       'published points': 140, 'reference values': 25, 'noisy fits': 30}
ASSUMPTIONS = ['Arguments lie within the range of the table.', 'Functions to fit are linear in their parameters and tables are not '
               'degenerate (more points than parameters, arguments of moderate size).']


def laws():
    use_repo()
    import importlib
    return importlib.import_module('phys.laws')


def linear(xs, ys, x):
    for a, b, p, q in zip(xs, xs[1:], ys, ys[1:]):
        if a <= x <= b:
            return p + (q - p) * ((x - a) / (b - a)), p, q
    raise ValueError(x)


def judge_linear(ctx, rng, law, xs, ys, what):
    top = max(abs(y) for y in ys) or 1.0
    for x, y in zip(xs, ys):
        ctx.count('table points')
        got = float(law(x))
        ctx.check(abs(got - y) <= 1e-9 * top, lambda: '{0}: {1!r} at the table point {2!r}, the table says {3!r}'.format(what, got, x, y), 'point')
    args = []
    for _ in range(12):
        k = rng.randrange(len(xs) - 1)
        t = rng.choice([0.5, rng.random(), 1e-6, 1 - 1e-6])
        args.append(min(max(xs[k] + (xs[k + 1] - xs[k]) * t, xs[k]), xs[k + 1]))
    for x in args:
        w, p, q = linear(xs, ys, x)
        got = float(law(x))
        ctx.count('points between')
        ctx.check(abs(got - w) <= 1e-9 * top, lambda: '{0}: {1!r} at {2!r}, the straight line gives {3!r}'.format(what, got, x, w), 'line')
        ctx.check(min(p, q) - 1e-9 * top <= got <= max(p, q) + 1e-9 * top,
                  lambda: '{0}: {1!r} at {2!r} is not between {3!r} and {4!r}'.format(what, got, x, p, q), 'between')
    a = np.array(args)
    r = np.asarray(law(a))
    ctx.count('arrays')
    ctx.eq(r.shape, a.shape, what + ': shape of values at an array')
    ctx.check(all(abs(float(law(x)) - y) <= 1e-12 * top for x, y in zip(args, r)), what + ': an array gives other values', 'array')


def table(rng):
    n = rng.choice([2, 3, 4, 5, 10, 30])
    kind = rng.choice(['even', 'uneven', 'clustered', 'ints'])
    x0 = rng.uniform(-300, 300)
    if kind == 'even':
        xs = [x0 + 2.5 * k for k in range(n)]
    elif kind == 'ints':
        xs = sorted(rng.sample(range(-200, 200), n))
    else:
        xs, x = [], x0
        for _ in range(n):
            x += rng.uniform(0.5, 10) if kind == 'uneven' else rng.choice([1e-3, 1.0, 40.0]) * rng.uniform(1, 2)
            xs.append(x)
    vk = rng.choice(['random', 'monotone', 'constant', 'small', 'large', 'ints', 'jump'])
    if vk == 'monotone':
        ys = sorted(rng.uniform(0, 10) for _ in xs)
    elif vk == 'constant':
        ys = [rng.uniform(-5, 5)] * n
    elif vk == 'ints':
        ys = [rng.randint(-9, 9) for _ in xs]
    elif vk == 'jump':
        ys = [0.0 if k < n // 2 else 1e6 for k in range(n)]
    else:
        s = {'random': 1.0, 'small': 1e-6, 'large': 1e7}[vk]
        ys = [s * rng.uniform(-1, 1) for _ in xs]
    return xs, ys, kind, vk


def poly(k):
    return {1: lambda x, a, b: a * x + b, 2: lambda x, a, b, c: (a * x + b) * x + c,
            3: lambda x, a, b, c, d: ((a * x + b) * x + c) * x + d}[k]


def case(ctx, rng, i):
    L = laws()
    what = rng.choice(['linear', 'linear', 'linear', 'const', 'fit', 'fit'])
    if what == 'linear':
        xs, ys, k, v = table(rng)
        form = rng.choice([list, tuple, np.array])
        t = {'x': form(xs), 'y': form(ys)}
        law = L.LinearLaw(t)
        judge_linear(ctx, rng, law, xs, ys, 'law of a table of {0} points'.format(len(xs)))
        ctx.check(list(t['x']) == xs and list(t['y']) == ys, 'the table changed', 'inputs')
        # Another law does not disturb this one.
        xs2, ys2, _, _ = table(rng)
        L.LinearLaw({'x': xs2, 'y': ys2})
        judge_linear(ctx, rng, law, xs, ys, 'law of a table of {0} points, again'.format(len(xs)))
        ctx.sig('linear', len(xs), k, v, form.__name__)
    elif what == 'const':
        c = rng.choice([0, 1.5, -2.0, 1e-9, 1e12, rng.uniform(-9, 9)])
        law = L.ConstLaw(c)
        other = L.ConstLaw(c + 1.0)
        for x in [rng.uniform(-1e3, 1e3) for _ in range(5)] + [0, np.array([1.0, 2.0])]:
            ctx.count('constants')
            ctx.check(np.all(np.asarray(law(x)) == c), lambda: 'a constant law gives {0!r} instead of {1!r}'.format(law(x), c), 'const')
            ctx.check(np.all(np.asarray(other(x)) == c + 1.0), 'constant laws share their value', 'const')
        ctx.sig('const', c)
    else:
        fit(ctx, rng, L)


def fit(ctx, rng, L):
    own = [('_cubic', 3, getattr(L, '_cubic', None)), ('_quadro', 4, getattr(L, '_quadro', None))]
    name, deg, fun = rng.choice([x for x in own if x[2] is not None] + [('poly', k, poly(k)) for k in (1, 2, 3)])
    par = [rng.uniform(-3, 3) for _ in range(deg + 1)]
    n = deg + rng.choice([2, 4, 20])
    xs = sorted(rng.uniform(-4, 4) for _ in range(n))
    if min(b - a for a, b in zip(xs, xs[1:])) < 0.02:
        xs = [-4 + 8.0 * k / (n - 1) for k in range(n)]
    # The formula of the law, computed on its own: powers from the highest down to the constant.
    formula = lambda x: sum(p * x ** (deg - k) for k, p in enumerate(par))
    noise = rng.random() < 0.3
    ys = [formula(x) + (rng.uniform(-1, 1) if noise else 0.0) for x in xs]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        law = L.FuncLaw({'x': xs, 'y': ys}, fun)
    ctx.count('fits')
    top = max(abs(y) for y in ys) or 1.0
    if noise:
        ctx.count('noisy fits')
        best = np.polyval(np.polyfit(xs, ys, deg), xs)
        r0 = math.sqrt(sum((a - b) ** 2 for a, b in zip(best, ys)))
        r1 = math.sqrt(sum((float(law(x)) - y) ** 2 for x, y in zip(xs, ys)))
        ctx.check(r1 <= r0 + 1e-4 * top, lambda: 'the fit of {0} has deviation {1}, the best one {2}'.format(name, r1, r0), 'fit')
    else:
        for x in xs + [rng.uniform(xs[0], xs[-1]) for _ in range(6)]:
            ctx.count('fitted points')
            got = float(law(x))
            ctx.check(abs(got - formula(x)) <= 1e-5 * top, lambda: 'the law fitted to its own formula ({0}) gives {1!r} at {2!r}, '
                      'the formula {3!r}'.format(name, got, x, formula(x)), 'fit')
    a = np.array(xs)
    ctx.check(np.allclose(np.asarray(law(a)), [float(law(x)) for x in xs], rtol=1e-9, atol=1e-9 * top), 'an array gives other values', 'array')
    ctx.sig('fit', name, n, noise)


# Known values (SI) with generous tolerance, by words in the name of the table.
KNOWN = [(('water', 'viscosity'), [(0, 1.79e-3), (20, 1.002e-3), (50, 5.47e-4), (100, 2.82e-4), (25, 8.9e-4), (75, 3.78e-4), (5, 1.519e-3),
                                     (10, 1.307e-3), (30, 7.98e-4), (40, 6.53e-4), (60, 4.67e-4), (70, 4.04e-4), (80, 3.55e-4),
                                     (90, 3.15e-4)], 0.025, 'down'),
         (('water', 'capacity'), [(0, 4217.), (10, 4192.), (20, 4182.), (25, 4180.), (-5, 4245.), (-9, 4266.), (5, 4205.), (15, 4188.), (29, 4179.)], 0.01, 'down'),
         (('ice', 'capacity'), [(-10, 2020.), (-20, 1950.), (-15, 1985.), (-25, 1910.), (-28, 1892.), (-22, 1938.), (-18, 1968.), (-12, 2012.)], 0.01, 'up'),
         (('air', 'capacity'), [(0, 1005.), (100, 1010.), (20, 1005.), (200, 1025.), (400, 1068.), (500, 1093.), (-50, 1009.)], 0.01, None),
         (('vaporization',), [(0, 2500.), (20, 2454.), (100, 2257.), (150, 2114.), (200, 1940.), (250, 1716.), (300, 1404.), (50, 2382.),
                              (70, 2333.), (120, 2202.), (180, 2014.), (220, 1857.), (350, 893.)], 0.02, 'down'),
         (('sublimation',), [(0, 2834e3), (-10, 2857e3), (-20, 2881e3), (-30, 2903e3), (-39, 2924e3)], 0.02, 'down')]


def published(ctx):
    import random
    L = laws()
    rng = random.Random(ctx.seed)
    tables = {n: t for n, t in vars(L).items() if isinstance(t, dict) and set(t) >= {'x', 'y'}}
    ctx.check(len(tables) >= 6, 'tables are missing: {0}'.format(sorted(tables)), 'tables')
    for n, t in sorted(tables.items()):
        xs, ys = list(t['x']), list(t['y'])
        ctx.eq(len(xs), len(ys), 'points of table ' + n)
        ctx.check(all(b > a for a, b in zip(xs, xs[1:])), 'arguments of {0} do not grow'.format(n), 'table')
        for x, y in zip(xs, ys):
            ctx.count('published points')
            ctx.check(math.isfinite(y) and y >= 0 and (y > 0 or x == xs[-1]), lambda: '{0}: {1!r} at {2!r}'.format(n, y, x), 'table')
        law = L.LinearLaw(t)
        judge_linear(ctx, rng, law, xs, ys, 'law of ' + n)
        for words, vals, tol, trend in KNOWN:
            if all(w in n.split('_') or w in n for w in words) and not ('ice' in words and 'ice' not in n.split('_')):
                for x, y in vals:
                    if xs[0] <= x <= xs[-1]:
                        ctx.count('reference values')
                        got = float(law(x))
                        ctx.check(abs(got - y) <= tol * y, lambda: '{0}: {1!r} at {2}, known to be about {3}'.format(n, got, x, y), 'known')
                sgn = {'up': 1, 'down': -1, None: 0}[trend]
                ctx.check(all(sgn * (b - a) >= 0 for a, b in zip(ys, ys[1:])), '{0}: values do not go {1}'.format(n, trend), 'trend')
        # No single value stands out of the line of its neighbours.
        for k in range(1, len(xs) - 1):
            w = ys[k - 1] + (ys[k + 1] - ys[k - 1]) * (xs[k] - xs[k - 1]) / (xs[k + 1] - xs[k - 1])
            ctx.count('published values')
            ctx.check(abs(ys[k] - w) <= 0.12 * max(ys), lambda: '{0}: {1!r} at {2!r} stands out, neighbours suggest {3!r}'.format(
                n, ys[k], xs[k], w), 'trend')
        ctx.sig('published', n)


def fixed(ctx):
    return [('published tables', published)]
