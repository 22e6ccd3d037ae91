"""P29: random and near-miss file names through the name functions, judged by an independent parser; names written by the tools too."""
import copy
import os

from vh import mesh as M
from vh.core import quiet, use_repo

RULE = 'distinct (kind of name, pieces of the base, change made, verdicts)'
QUICK, THOROUGH = 13500, 60000
MIN = {'names with a timestamp': 400, 'names without a timestamp': 400, 'file names recognised': 500, 'file names rejected': 2500,
       'names written by tools': 60, 'groups': 1000, 'files grouped': 4000, 'flattened lists': 1400, 'items kept': 1500}
ASSUMPTIONS = ['File names are ASCII without line feeds.',
               'Pieces of domain and result file names are separated by underscores and a dot (other separators are not judged).']
PIECES = ['wing', 'w', 'bunny', '1', '00', '00001', '000010000000', '123456789012', 'a.b', 'x-y', 'naca 0012', 'r', 'T', 'cry', 'txt',
          '1234567890123', '12345678901', '²', 'Крыло', '_', 'v1.2.3']
D = '0123456789'


def digits(rng, n):
    return rng.choice(['0' * n, '9' * n, '0' * (n - 1) + '1', ''.join(rng.choice(D) for _ in range(n))])


def base(rng):
    return rng.choice(['_', '_', '', '.']).join(rng.choice(PIECES) for _ in range(rng.choice([1, 1, 2, 3, 4])))


def stamped(s):
    """Independent rule: an underscore and exactly twelve digits at the end."""
    return len(s) >= 13 and s[-13] == '_' and all(c in D for c in s[-12:])


def case(ctx, rng, i):
    use_repo()
    import utils
    b = base(rng)
    stamp(ctx, rng, utils, b)
    for _ in range(6):
        recognise(ctx, rng, utils, b)
    group(ctx, rng, utils)
    flat(ctx, rng, utils)
    if i % 40 == 0:
        tools(ctx, rng, utils, b)


def stamp(ctx, rng, utils, b):
    t = digits(rng, 12)
    full = b + '_' + t
    ctx.eq(bool(utils.has_filename_timestamp(full)), True, 'name {0!r} has a timestamp'.format(full))
    ctx.eq(tuple(utils.get_filename_and_timestamp_pair(full)), (b, t), 'parts of {0!r}'.format(full))
    ctx.count('names with a timestamp')
    near = rng.choice([b, b + '_' + t[:-1], b + t, b + '_' + t + '_r', b + '-' + t, b + '_' + t[:5] + 'x' + t[6:], b + '_' + t + ' ',
                       b + '_' + t[:6] + '_' + t[6:], t, b + '_' + t + rng.choice(D), b + '_' + t[:-1] + 'O', b + '_+' + t[1:], '', b + '_',
                       b + '_' + t + '.dat', b + '_' + t[:-1] + ' ', b + ' ' + t, b + '_' + t[:-1] + '.'])
    want = (near[:-13], near[-12:]) if stamped(near) else (near, '0' * 12)
    ctx.eq(bool(utils.has_filename_timestamp(near)), stamped(near), 'name {0!r} has a timestamp'.format(near))
    got = tuple(utils.get_filename_and_timestamp_pair(near))
    ctx.eq(got, want, 'parts of {0!r}'.format(near))
    if stamped(near):
        ctx.eq('_'.join(got), near, 'parts of {0!r} joined'.format(near))
    else:
        ctx.count('names without a timestamp')
    ctx.sig('stamp', len(b) // 4, near[len(b):len(b) + 2], len(near) - len(b), stamped(near))


def recognise(ctx, rng, utils, b):
    m, t, e = digits(rng, 5), digits(rng, 12), rng.choice(['cry', 'txt'])
    fn = '{0}_{1}_{2}.{3}'.format(b, m, t, e)
    how = rng.choice(['none', 'stem+', 'stem-', 'stem case', 'rank 6', 'rank 4', 'rank letter', 'rank sign', 'time 11', 'time 13',
                      'time letter', 'kind', 'kind case', 'double kind', 'other stem', 'no rank', 'no time', 'pref', 'none', 'swapped', 'short',
                      'rank space'])
    x = rng.choice('abXO -+.')
    f = fn
    if how == 'stem+':
        f = b + rng.choice(['_', 'a', '1', '_1', '_00001']) + fn[len(b):]
    elif how == 'stem-':
        f = fn[rng.randint(1, len(b)):]
    elif how == 'stem case':
        f = b.swapcase() + fn[len(b):]
    elif how == 'rank 6':
        f = '{0}_{1}_{2}.{3}'.format(b, m + rng.choice(D), t, e)
    elif how == 'rank 4':
        f = '{0}_{1}_{2}.{3}'.format(b, m[:4], t, e)
    elif how == 'rank letter':
        f = '{0}_{1}_{2}.{3}'.format(b, m[:2] + x + m[3:], t, e)
    elif how == 'rank sign':
        f = '{0}_{1}_{2}.{3}'.format(b, rng.choice('-+') + m[1:], t, e)
    elif how == 'rank space':
        f = '{0}_{1}_{2}.{3}'.format(b, ' ' + m[1:], t, e)
    elif how == 'time 11':
        f = '{0}_{1}_{2}.{3}'.format(b, m, t[1:], e)
    elif how == 'time 13':
        f = '{0}_{1}_{2}.{3}'.format(b, m, t + '0', e)
    elif how == 'time letter':
        k = rng.randrange(12)
        f = '{0}_{1}_{2}.{3}'.format(b, m, t[:k] + x + t[k + 1:], e)
    elif how == 'kind':
        f = fn[:-3] + rng.choice(['dat', 'csv', 'tx', 'cryy', 'text', '', 'tx1'])
    elif how == 'kind case':
        f = fn[:-3] + e.upper()
    elif how == 'double kind':
        f = fn + '.' + e
    elif how == 'other stem':
        f = base(rng) + fn[len(b):]
    elif how == 'no rank':
        f = '{0}_{1}.{2}'.format(b, t, e)
    elif how == 'no time':
        f = '{0}_{1}.{2}'.format(b, m, e)
    elif how == 'pref':
        f = rng.choice(['_', 'a', '.', ' ']) + fn
    elif how == 'swapped':
        f = '{0}_{1}_{2}.{3}'.format(b, t, m, e)
    elif how == 'short':
        f = fn[-rng.randint(1, 22):]
    # Independent parse from the left: the base, then fixed pieces up to the end.
    def want(kind):
        r = f[len(b):]
        return (f.startswith(b) and len(r) == 23 and r[0] == '_' and all(c in D for c in r[1:6]) and r[6] == '_'
                and all(c in D for c in r[7:19]) and r[19:] == '.' + kind)
    for kind, fun in (('cry', utils.is_filename_correct_crys_cry_file), ('txt', utils.is_filename_correct_crys_txt_file)):
        w = want(kind)
        # Only separators differ: not judged.
        if not w and len(f) > 22 and f[:-23] == b and f[-22:-17].isdecimal() and f[-16:-4].isdecimal() and f[-3:] == kind:
            continue
        ctx.count('file names recognised' if w else 'file names rejected')
        ctx.check(bool(fun(f, b)) == w, lambda: '{0!r} is{1} a {2} file of grid {3!r}, the tools say otherwise'.format(
            f, '' if w else ' not', kind, b), 'recognised')
    if how == 'none':
        ctx.eq(tuple(utils.dummy_split_filename(f)), (b, int(m), int(t), e), 'pieces of {0!r}'.format(f))
    elif how in ('rank letter', 'rank sign', 'rank space') and not all(c in D for c in f[len(b) + 1:len(b) + 6]):
        ctx.eq(tuple(utils.dummy_split_filename(f)), (b, None, int(t), e), 'pieces of {0!r}'.format(f))
    elif how == 'time letter':
        ctx.eq(tuple(utils.dummy_split_filename(f)), (b, int(m), None, e), 'pieces of {0!r}'.format(f))
    ctx.sig('file', how, e, len(b) // 4)


def group(ctx, rng, utils):
    ts = [digits(rng, 12) for _ in range(rng.choice([1, 2, 3, 5]))]
    b = base(rng)
    fs = []
    for t in ts:
        fs += ['{0}_{1:05d}_{2}.txt'.format(b, r, t) for r in rng.sample(range(100), rng.choice([0, 1, 2, 4]))]
    fs = sorted(set(fs))
    rng.shuffle(fs)
    src = list(fs)
    d = utils.group_txt_files_by_timestamps(fs)
    ctx.eq(fs, src, 'list of files after grouping', monitor='inputs')
    ctx.count('groups', len(d))
    ctx.count('files grouped', len(fs))
    ctx.eq(sorted(x for v in d.values() for x in v), sorted(fs), 'files of all groups')
    ctx.eq(sorted(d), sorted({f[-16:-4] for f in fs}), 'timestamps of groups')
    for t, v in d.items():
        ctx.check(len(v) > 0 and all(f[len(b) + 7:-4] == t for f in v), lambda: 'group {0}: {1}'.format(t, v), 'group')
    ctx.sig('group', len(ts), len(d), len(fs))


def nest(rng, depth, out):
    r = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.random()
        if k < 0.4 and depth:
            r.append(nest(rng, depth - 1, out))
        else:
            x = rng.choice([1, 0, None, 'ab', '', (1, [2]), {'a': [1]}, 2.5, float('nan'), object(), True])
            out.append(x)
            r.append(x)
    return r


def flat(ctx, rng, utils):
    want = []
    a = nest(rng, rng.choice([0, 1, 3, 6, 12]), want)
    if rng.random() < 0.1:
        for _ in range(rng.choice([5, 50, 200])):
            a = [a]
    shape = repr(a)
    got = utils.flatten(a)
    ctx.count('flattened lists')
    ctx.count('items kept', len(want))
    ctx.check(isinstance(got, list) and len(got) == len(want) and all(x is y for x, y in zip(got, want)),
              lambda: 'flatten({0}) is {1!r}'.format(shape, got), 'flatten')
    ctx.check(got is not a or not want or all(not isinstance(x, list) for x in a), 'flatten returned its argument', 'flatten')
    ctx.eq(repr(a), shape, 'list after flattening', monitor='inputs')
    ctx.sig('flat', len(want), shape.count('['))


def tools(ctx, rng, utils, b):
    """Names of files written by the tools."""
    import gsu
    from vh import loadcmp
    b = b.replace('²', '2')
    m = M.random_shape(rng, 's')
    M.add_zones(rng, m)
    M.add_data(rng, m, list(M.STD_VARS))
    p = ctx.path('in', 'grid.dat')
    M.write_dat(m, p)
    g = loadcmp.load(gsu, p)
    if rng.random() < 0.5:
        g.decompose_linear(rng.randint(1, min(12, len(g.Faces))))
    d = os.path.dirname(ctx.path('out', 'x'))
    t = digits(rng, 12)
    with quiet():
        g.store_mpi(os.path.join(d, b), t, '.cry')
    fs = os.listdir(d)
    ctx.eq(len(fs), len(g.Zones), 'files of domains')
    ranks = []
    for f in fs:
        ctx.count('names written by tools')
        ctx.check(utils.is_filename_correct_crys_cry_file(f, b), lambda: 'the domain file {0!r} of grid {1!r} is not recognised'.format(f, b),
                  'recognised')
        s, r, tm, e = utils.dummy_split_filename(f)
        ctx.eq((s, tm, e), (b, int(t), 'cry'), 'pieces of {0!r}'.format(f))
        ranks.append(r)
    ctx.eq(sorted(ranks), list(range(len(fs))), 'ranks of files')
