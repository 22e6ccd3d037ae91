"""
P30: the native module is built from the working tree twice (as the project does, and with AddressSanitizer and
UndefinedBehaviorSanitizer) and called with arrays of every kind by processes with different numbers of threads.
"""
import atexit
import json
import os
import shutil
import struct
import subprocess
import sys
import sysconfig

import numpy as np

from vh.core import REPO, HarnessError

RULE = 'distinct (build and number of threads, kinds of arguments, lengths equal or which is the longest, length buckets, calls)'
QUICK, THOROUGH = 1500, 30000
MIN = {'calls': 300, 'elements judged': 100000, 'unequal lengths': 150, 'empty arrays': 60, 'wrong arguments': 80, 'sanitized calls': 150,
       'calls by 4 or more threads': 100, 'repeated arrays': 20}
ASSUMPTIONS = ['Arrays that overlap without being the same array are not given.',
               'The module is built with the compiler of this machine, by the same steps as the Makefile of the project.']
MODES = [('asan', 1), ('asan', 4), ('plain', 1), ('plain', 2), ('plain', 8)]
BAD = ['float32', 'int', 'complex', '2d', '2dt', '0d', 'stride', 'reversed', 'swapped', 'list', 'none', 'number', 'text', 'objects']


def run(argv, **kw):
    p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)
    if p.returncode != 0:
        raise HarnessError('{0}\n{1}'.format(' '.join(argv), p.stdout[-3000:]))
    return p.stdout


def setup(ctx):
    d = os.path.join(ctx.keep_dir, 'cpp')
    shutil.copytree(os.path.join(REPO, 'crysgsu', 'cpp'), d)
    src = os.path.join(d, 'src')
    for f in os.listdir(src):
        if f.endswith(('.o', '.d')):
            os.remove(os.path.join(src, f))
    run(['swig', '-python', '-o', 'src/swim_wrap.cpp', 'src/swim.i'], cwd=d)
    inc = ['-Isrc', '-I' + np.get_include(), '-I' + sysconfig.get_paths()['include']]
    jobs = []
    cpps = sorted(f for f in os.listdir(src) if f.endswith('.cpp'))
    for mode, flags in (('plain', ['-O3']), ('asan', ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                                                     '-fno-omit-frame-pointer'])):
        o = os.path.join(ctx.keep_dir, mode)
        os.makedirs(o)
        jobs.append((mode, subprocess.Popen(
            ['g++', '-std=c++11', '-fopenmp', '-fPIC', '-shared', '-w'] + flags + inc + ['src/' + f for f in cpps] +
            ['-o', os.path.join(o, '_swim.so')], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)))
        shutil.copy(os.path.join(src, 'swim.py'), o)
    for mode, p in jobs:
        t = p.communicate()[0]
        if p.returncode != 0:
            raise HarnessError('build {0}\n{1}'.format(mode, t[-3000:]))
    ctx.workers = {}
    atexit.register(lambda: [w.kill() for w in ctx.workers.values()])


def worker(ctx, mode):
    w = ctx.workers.get(mode)
    if w is None:
        env = dict(os.environ, OMP_NUM_THREADS=str(mode[1]), OMP_DYNAMIC='false', PYTHONDONTWRITEBYTECODE='1')
        if mode[0] == 'asan':
            env['LD_PRELOAD'] = run(['gcc', '-print-file-name=libasan.so']).strip()
            env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0'
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=78'
        err = open(os.path.join(ctx.keep_dir, 'err_{0}_{1}'.format(*mode)), 'w')
        w = subprocess.Popen([sys.executable, '-B', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vh',
                                                                'swim_worker.py'), os.path.join(ctx.keep_dir, mode[0])],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, universal_newlines=True, env=env)
        ctx.workers[mode] = w
        if w.stdout.readline().strip() != 'ready':
            t = open(err.name).read()
            if 'Sanitizer' in t or 'runtime error' in t:
                ctx.check(False, 'importing the module: ' + t[-2000:], 'sanitizer')
            raise HarnessError('the process with the module does not start: ' + t[-2000:])
    return w


def ask(ctx, mode, req):
    w = worker(ctx, mode)
    try:
        w.stdin.write(json.dumps(req) + '\n')
        w.stdin.flush()
        line = w.stdout.readline()
    except BrokenPipeError:
        line = ''
    if not line:
        rc = w.wait()
        del ctx.workers[mode]
        t = open(os.path.join(ctx.keep_dir, 'err_{0}_{1}'.format(*mode))).read()
        ctx.check(False, 'the process died ({0}) in the native routine called with {1}:\n{2}'.format(
            rc, [(s['kind'], len(s.get('bits', []))) for s in req['args']], t[:2500]), 'died')
    return json.loads(line)


def value(rng):
    k = rng.random()
    if k < 0.7:
        return rng.uniform(-1e3, 1e3)
    return rng.choice([0.0, -0.0, 1e300, -1e16, 2.0 ** 53, 5e-324, float('inf'), -float('inf'), float('nan'), -1.0, -2.0, -3.0, 1e-20])


def to_bits(vs):
    return list(struct.unpack('<{0}Q'.format(len(vs)), struct.pack('<{0}d'.format(len(vs)), *vs)))


def length(rng):
    return rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 16, 17, 64, 100, 1000, rng.randint(0, 300), rng.randint(0, 3000)])


def case(ctx, rng, i):
    mode = MODES[i % len(MODES)]
    eq = rng.random() < 0.3
    n = length(rng)
    args = []
    for k in range(3):
        m = n if eq else (n + rng.choice([1, 2, -1, 7]) if rng.random() < 0.4 else length(rng))
        args.append({'kind': rng.choice(['good', 'array']), 'bits': to_bits([value(rng) for _ in range(max(0, m))])})
    if not eq and rng.random() < 0.3:
        # One array much longer than the others.
        k = rng.randrange(3)
        args[k]['bits'] = to_bits([value(rng) for _ in range(rng.choice([5000, 20000]))])
    wrong = None
    r = rng.random()
    if r < 0.25:
        wrong = rng.randrange(3)
        kind = rng.choice(BAD)
        args[wrong]['kind'] = kind
        if len(args[wrong]['bits']) < 2:
            args[wrong]['bits'] = to_bits([1.0, 2.0, 3.0])
    elif r < 0.33:
        wrong = 'count'
        args = rng.choice([args[:2], args + [args[0]], args[:1], []])
    elif r < 0.42:
        k = rng.choice([1, 2])
        args[k] = {'kind': 'same', 'of': rng.randrange(k)}
        ctx.count('repeated arrays')
    times = 1 if wrong is not None else rng.choice([1, 1, 1, 2, 5])
    lens = [len(a.get('bits', [])) for a in args]
    if rng.random() < 0.1 and wrong is None:
        # Process-wide schedules: the same call by all kinds of processes gives the same result.
        modes = MODES
    else:
        modes = [mode]
    for md in modes:
        a = ask(ctx, md, {'args': args, 'times': times})
        ctx.count('sanitized calls', int(md[0] == 'asan'))
        ctx.count('calls by 4 or more threads', int(md[1] >= 4))
        what = 'call of {0} threads with arrays {1}'.format(md[1], [(x['kind'], l) for x, l in zip(args, lens)])
        if wrong is not None:
            ctx.count('wrong arguments')
            ctx.check(a['error'] is not None, what + ': accepted instead of refused', 'refused')
            ctx.check(all(a['unchanged']), what + ': refused, but changed an array', 'refused')
            ctx.check(all(a['guards']), what + ': memory around an array changed', 'guards')
            continue
        ctx.count('calls')
        ctx.check(a['error'] is None, what + ': failed with {0}'.format(a['error']), 'failed')
        ctx.check(all(a['guards']), what + ': memory around an array changed', 'guards')
        good = [x for x in args if x['kind'] != 'same']
        ctx.count('unequal lengths', int(len({len(x['bits']) for x in good}) > 1))
        ctx.count('empty arrays', int(any(len(x['bits']) == 0 for x in good)))
        # What every array has to hold.
        objs, owner = [], []
        for k, x in enumerate(args):
            if x['kind'] == 'same':
                o = owner[x['of']]
            else:
                o = len(objs)
                objs.append((struct.unpack('<{0}d'.format(len(x['bits'])), struct.pack('<{0}Q'.format(len(x['bits'])), *x['bits'])), []))
            owner.append(o)
            objs[o][1].append(k + 1)
        for k, o in enumerate(owner):
            v, adds = objs[o]
            w = np.array(v, dtype=np.float64)
            cands = []
            import itertools
            for order in set(itertools.permutations(adds)):
                y = w.copy()
                with np.errstate(all='ignore'):
                    for _ in range(times):
                        for s in order:
                            y = y + float(s)
                cands.append(y)
            got = np.array(a['bits'][k], dtype=np.uint64).view(np.float64)
            ctx.count('elements judged', len(got))
            bad = [j for j in range(len(w)) if not any(got[j] == y[j] or (got[j] != got[j] and y[j] != y[j]) for y in cands)] \
                if len(got) == len(w) else ['length']
            ctx.check(not bad, lambda: '{0}: element {1} of array {2} is {3!r}, expected {4!r}'.format(
                what, bad[0], k + 1, got[bad[0]] if bad[0] != 'length' else len(got),
                cands[0][bad[0]] if bad[0] != 'length' else len(w)), 'value')
    ctx.sig(mode, [x['kind'] for x in args], [min(l, 20) // 4 for l in lens], times)
    ctx.sample({'mode': mode, 'args': [(x['kind'], l) for x, l in zip(args, lens)], 'times': times})
