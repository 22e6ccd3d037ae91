"""
P38: every run of a tool made by the workloads of other checks is repeated on a copy of its inputs by processes that differ in what must
not matter: hash seed, memory allocator, working directory, names of directories, order of directory lists, and runs made before.
What they write is compared byte by byte.
"""
import importlib
import json
import os
import shutil
import subprocess
import sys

from vh import mesh as M
from vh.core import REPO, VERIF, Ctx, HarnessError, Violation, run_cli, tree_bytes, use_repo

RULE = 'distinct (workload, tools run, ways they end, numbers of files written)'
QUICK, THOROUGH = 220, 1800
MIN = {'tool runs repeated': 110, 'files left by an earlier run': 60, 'places used by other inputs before': 40, 'files compared': 300, 'runs of split.py': 5, 'runs of merge.py': 4, 'runs of remesh.py': 20,
       'runs of convert/lazurit_to_crystal.py': 3, 'runs of convert/ansys_to_crystal.py': 3}
ASSUMPTIONS = ['Reports of elapsed time (report.txt) are compared by presence only.',
               'Equal work on one machine gives equal floating point numbers.']
WORKLOADS = ['P09', 'P10', 'P10', 'P20', 'P20', 'P21', 'P26', 'P27', 'P28', 'P36', 'P37']
WORKERS = [('plain', '0', {}), ('twice', '1', {'PYTHONMALLOC': 'malloc', 'MALLOC_PERTURB_': '90'}), ('backwards', '20231', {'LC_ALL': 'C'})]
PLACES = ['w', 'x_000000000007', 'in.dat', 'a b', 'p_r_q', 'long_name_of_a_directory_00001', 'B-1', 'deep/er', 'q.cry', '00001_000000000100']
TIMEOUT = 180


class Worker:
    def __init__(self, mode, seed, extra):
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO, **extra)
        self.mode = mode
        self.p = subprocess.Popen([sys.executable, '-B', '-W', 'ignore', os.path.join(VERIF, 'vh', 'tool_worker.py'), mode], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=None if os.environ.get('VH_DEBUG') else subprocess.DEVNULL, universal_newlines=True,
                                  cwd='/')

    def ask(self, q):
        try:
            self.p.stdin.write(json.dumps(q) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ''
        if not line:
            raise HarnessError('a worker process ended')
        return json.loads(line)


class Inner(Ctx):
    """Context for the case of another check; remembers only whether this check has raised the alarm."""

    def __init__(self, outer):
        self.__dict__.update(outer.__dict__)
        self.counters, self.sigs, self.samples = {}, set(), []


class Differ(Violation):
    pass


def setup(ctx):
    use_repo()
    ctx.workers = [Worker(*w) for w in WORKERS]
    ctx.prev = {}
    for p in sorted(set(WORKLOADS)):
        mod = importlib.import_module('checks.' + p)
        if hasattr(mod, 'setup'):
            mod.setup(ctx)


def finish(ctx):
    for w in ctx.workers:
        w.p.stdin.close()
        w.p.wait(20)


def contents(d):
    """{relative name: contents without the place where the tree stands}"""
    res = {}
    for k, b in tree_bytes(d).items():
        res[k] = b'' if os.path.basename(k) == 'report.txt' else b.replace(d.encode(), b'@')
    return res


def case(ctx, rng, i):
    p = rng.choice(WORKLOADS)
    mod = importlib.import_module('checks.' + p)
    inner, before = Inner(ctx), ctx.counters.get('files compared', 0)
    seen = []

    def repeat(script, argv, cwd=None):
        argv = [str(a) for a in argv]
        k = len(seen)
        if k >= 6:
            return run_cli(script, argv, cwd)
        root = inner.case_dir
        base = os.path.join(ctx.root, 'rep')
        shutil.rmtree(base, ignore_errors=True)
        trees = []
        old = {k: None for k in tree_bytes(root)}
        dirs = {os.path.dirname(k) for k in old}
        for w, place in zip(ctx.workers, rng.sample(PLACES, len(ctx.workers))):
            t = os.path.join(base, w.mode, place)
            shutil.copytree(root, t)
            if w.mode == 'plain':
                keep = os.path.join(base, 'keep')
                shutil.copytree(root, keep)
                if rng.random() < 0.5:
                    # Files of the same names and lengths with other numbers stood here before.
                    for nm, b in tree_bytes(t).items():
                        with open(os.path.join(t, nm), 'wb') as h:
                            h.write(M.other_digits(b.decode('latin-1')).encode('latin-1'))
                    w.ask({'script': script, 'argv': [a.replace(root, t) for a in argv], 'cwd': None if cwd is None else cwd.replace(root, t), 'first': None})
                    shutil.rmtree(t)
                    shutil.copytree(keep, t)
                    ctx.count('places used by other inputs before')
                elif (p, k) in ctx.prev:
                    # Another tree with files of other contents, mostly of the same names, stood here before.
                    d0, script0, argv0, cwd0 = ctx.prev[(p, k)]
                    os.rename(t, t + '.aside')
                    shutil.copytree(d0, t)
                    w.ask({'script': script0, 'argv': [a.replace('@', t) for a in argv0], 'cwd': None if cwd0 is None else cwd0.replace('@', t), 'first': None})
                    shutil.rmtree(t)
                    os.rename(t + '.aside', t)
                    ctx.count('places used by other inputs before')
                    shutil.rmtree(d0)
                d0 = os.path.join(ctx.root, 'prev', '{0}_{1}'.format(p, k))
                os.makedirs(os.path.dirname(d0), exist_ok=True)
                shutil.rmtree(d0, ignore_errors=True)
                os.rename(keep, d0)
                ctx.prev[(p, k)] = (d0, script, [a.replace(root, '@') for a in argv], None if cwd is None else cwd.replace(root, '@'))
            t2 = None
            if w.mode == 'twice':
                t2 = os.path.join(base, 'before', place)
                shutil.copytree(root, t2)
            trees.append((w, t, t2))
        end, err = 'done', None
        try:
            out = run_cli(script, argv, cwd)
        except SystemExit as e:
            end, err = 'done' if e.code in (None, 0) else 'refused', e
        except Exception as e:
            end, err = 'refused', e
        want = contents(root)

        def moved(t):
            return {'script': script, 'argv': [a.replace(root, t) for a in argv], 'cwd': None if cwd is None else cwd.replace(root, t)}
        ctx.count('runs of ' + script)
        for w, t, t2 in trees:
            q = moved(t)
            q['first'] = None if t2 is None else moved(t2)
            if w.mode != 'plain' and end == 'done' and rng.random() < 0.6:
                # Files to be written are there already, except in directories which hold inputs.
                q['litter'] = [os.path.join(t, k) for k in sorted(want) if k not in old and os.path.dirname(k) not in dirs]
                ctx.count('files left by an earlier run', len(q['litter']))
            r = w.ask(q)
            ctx.count('tool runs repeated')
            what = '{0} {1}, repeated by another process ({2}) in {3}'.format(
                script, ' '.join(a.replace(root, '@') for a in argv), w.mode, os.path.relpath(t, base))
            if r['end'] != end:
                raise Differ('{0}: {1} ({2}), but here it is {3} ({4!r})'.format(what, r['end'], r['why'], end, err), 'end')
            if end == 'done':
                got = contents(t)
                ctx.count('files compared', len(got))
                if sorted(got) != sorted(want):
                    raise Differ('{0}: files {1}, here {2}'.format(what, sorted(set(got) - set(want)), sorted(set(want) - set(got))), 'files')
                for nm in sorted(got):
                    if got[nm] != want[nm] and not (nm.endswith('.csv') and near(got[nm], want[nm])):
                        raise Differ('{0}: {1} differs: {2}'.format(what, nm, first(got[nm], want[nm])), 'contents')
        seen.append((script, end))
        if err is not None:
            raise err
        return out

    real = mod.run_cli
    mod.run_cli = repeat
    try:
        mod.case(inner, rng, i)
    except Differ:
        raise
    except Violation:
        # Another property is broken, which is for its own check to tell.
        ctx.count('cases stopped by another property')
    finally:
        mod.run_cli = real
        if hasattr(inner, 'case_dir'):
            ctx.case_dir = inner.case_dir
    if not seen:
        ctx.trivial += 1
        return
    ctx.sig(p, seen, ctx.counters.get('files compared', 0) - before)
    ctx.sample({'workload': p, 'runs': seen})


def near(a, b):
    """Tables are sums over files, which come in the order of the directory: equal up to rounding."""
    x, y = a.replace(b';', b' ').split(), b.replace(b';', b' ').split()
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if p != q:
            try:
                p, q = float(p), float(q)
            except ValueError:
                return False
            if not abs(p - q) <= 1e-13 * max(abs(p), abs(q)):
                return False
    return True


def first(a, b):
    for x, y in zip(a.split(b'\n'), b.split(b'\n')):
        if x != y:
            return '{0!r} and {1!r}'.format(x[:150], y[:150])
    return 'one file is longer'
