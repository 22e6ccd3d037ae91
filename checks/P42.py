"""
P42: runs of the tools made by the workloads of other checks are watched for what they open, make and change; then they are repeated with
a full disk, a quota, a kill in the middle of a file, or something in the place of an output, and once more without.
"""
import importlib
import json
import os
import re
import resource
import shutil
import signal
import time

from checks.P36 import grid as ice_grid
from checks.P38 import Inner, contents, first, near
from vh import audit
from vh import mesh as M
from vh.core import Violation, quiet, run_cli, tree_bytes, use_repo

RULE = 'distinct (workload, tools run, ways they end, faults injected, numbers of files written)'
QUICK, THOROUGH = 400, 2600
MIN = {'runs watched': 150, 'paths judged': 500, 'inputs compared': 600, 'writes refused by the system': 120, 'killed in the middle of a file': 50,
       'outputs in the way': 20, 'one output on a full device': 40, 'repeated after a fault': 150, 'repeated in the same process': 6, 'library calls repeated': 60, 'runs during another run': 60, 'runs of split.py': 8, 'runs of merge.py': 6, 'runs of remesh.py': 25,
       'runs of drops.py': 2, 'runs of convert/interpolate.py': 4, 'runs of convert/lazurit_to_crystal.py': 3,
       'runs of convert/lazurit_add_beta_from_ansys.py': 3, 'runs of convert/ansys_to_crystal.py': 3}
ASSUMPTIONS = ['The system reports a failed write (the limit of file size stands for a full disk); failures which no call reports are out of reach.',
               'Places of outputs are those which the help of the tools and the README name.',
               'Reports of elapsed time (report.txt) are compared by presence only.']
WORKLOADS = ['P09', 'P10', 'P10', 'P20', 'P20', 'P21', 'P26', 'P26', 'P27', 'P28', 'P28', 'P36', 'P37']
TIMEOUT = 180


class Broken(Violation):
    pass


def setup(ctx):
    use_repo()
    for p in sorted(set(WORKLOADS)):
        mod = importlib.import_module('checks.' + p)
        if hasattr(mod, 'setup'):
            mod.setup(ctx)


def option(argv, *names):
    for k, a in enumerate(argv[:-1]):
        if a in names:
            return argv[k + 1]
    return None


def places(script, argv, cwd):
    """(files, directories) where the tool may write."""
    def at(p):
        return os.path.normpath(os.path.join(cwd or os.getcwd(), p))
    if script == 'split.py':
        o, c = option(argv, '-o', '--out_dat_file'), option(argv, '-c', '--cry_dir')
        return ([at(o)] if o else []), ([at(c)] if c else [])
    if script == 'merge.py':
        stem = re.sub(r'_\d{12}$', '', os.path.splitext(os.path.basename(argv[0]))[0])
        return [at(os.path.join(argv[2], '..', stem + '.csv'))], [at(argv[2])]
    if script == 'remesh.py':
        return [], [at(option(argv, '-o', '--outdir') or '.')]
    if script == 'drops.py':
        return [at(argv[2]), at(argv[2] + '.tr.dat')], []
    if script == 'convert/interpolate.py':
        r = option(argv, '-res', '--result_grid')
        return [at(r or argv[1][:-4] + '_interpolated.dat')], []
    if script == 'convert/lazurit_add_beta_from_ansys.py':
        return [at(argv[2])], []
    if script == 'convert/lazurit_to_crystal.py':
        return [at(argv[1])], []
    if script == 'convert/ansys_to_crystal.py':
        d, b = os.path.split(argv[0])
        f = [b + '.dat', 'phase3.' + b + '.dat', 'phase4.' + b + '.dat']
        f += ['phase{0}.{1}.{2}.dat'.format(k, b, x) for k in (1, 2) for x in ('fensap', 'drop3d', 'adiabatic')]
        return [at(os.path.join(d, x)) for x in f], []
    raise KeyError(script)


def judge(log, files, dirs, what):
    """Everything written is in its place."""
    n = 0
    for act, path in log:
        n += 1
        if act in ('read', 'exists') or path in ('/dev/null',):
            continue
        if not path:
            raise Broken('{0}: it does {1}'.format(what, act), 'starts')
        ok = path in files or any(path == d or path.startswith(d + os.sep) for d in dirs)
        if act == 'os.mkdir':
            # Directories on the way to an output directory.
            ok = ok or any(d.startswith(path + os.sep) for d in dirs)
        if not ok:
            raise Broken('{0}: {1} of {2}, which is no output of it'.format(what, act, path), 'place')
    return n


def untouched(old, t, files, dirs, what):
    """Files which were there before and are no outputs have their bytes; nothing else appears."""
    now = tree_bytes(t)
    for k, b in old.items():
        p = os.path.join(t, k)
        if p in files or any(p.startswith(d + os.sep) for d in dirs):
            continue
        if now.get(k) != b:
            raise Broken('{0}: {1}, which it only reads, {2}'.format(what, k, 'is gone' if k not in now else 'has changed'), 'inputs')
    for k in now:
        p = os.path.join(t, k)
        if k not in old and p not in files and not any(p.startswith(d + os.sep) for d in dirs):
            raise Broken('{0}: {1} appears, which is no output of it'.format(what, k), 'place')
    return len(old)


def in_child(run, files, dirs, limit=None, kill=False, again=False):
    """(done, refused, killed or lost; why) of a call in a forked process, or of the second call, when the first is refused."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        end = 'lost', 'no answer'
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(100)
            null = os.open('/dev/null', os.O_RDWR)
            for k in (0, 1, 2):
                os.dup2(null, k)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
                hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))

            def once():
                log = []
                try:
                    with audit.watch() as log:
                        run()
                    end = 'done', ''
                except SystemExit as e:
                    end = 'done' if e.code in (None, 0) else 'refused', repr(e)
                except Exception as e:
                    end = 'refused', '{0}: {1}'.format(type(e).__name__, str(e)[:300])
                try:
                    judge(log, files, dirs, '')
                except Broken as e:
                    end = 'broken', str(e)
                return end
            end = once()
            if again and end[0] == 'refused':
                resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
                end = once()
                end = 'then ' + end[0], end[1]
        except BaseException as e:
            end = 'lost', repr(e)
        finally:
            try:
                os.write(w, json.dumps(end).encode())
            finally:
                os._exit(0)
    os.close(w)
    try:
        text = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            text += b
        st = os.waitpid(pid, 0)[1]
        pid = 0
    finally:
        os.close(r)
        if pid:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ('killed' if os.WTERMSIG(st) == signal.SIGXFSZ else 'signal'), str(os.WTERMSIG(st))
    return tuple(json.loads(text.decode()))


def compare(got, want, what):
    if sorted(got) != sorted(want):
        raise Broken('{0}: files {1} more, {2} less than undisturbed'.format(
            what, sorted(set(got) - set(want)), sorted(set(want) - set(got))), 'again')
    for nm in sorted(got):
        if got[nm] != want[nm] and not (nm.endswith('.csv') and near(got[nm], want[nm])):
            raise Broken('{0}: {1} differs: {2}'.format(what, nm, first(got[nm], want[nm])), 'again')


def library(ctx, rng):
    """Functions of the library which write files."""
    import gsu
    import gsu_converter
    import merge
    import split
    m = M.random_mesh(rng, rng.choice(['s', 's', 'm']))
    how = rng.choice(['store', 'store_mpi', 'store_faces_calc_data', 'Export', 'split', 'merge'])
    p = ctx.path('in', 'g_000000000005.dat')
    out = os.path.dirname(ctx.path('out', 'x'))
    if how == 'Export':
        m.vars = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ']
        m.data = [{v: rng.uniform(-9, 9) for v in m.vars} for _ in m.F]
        M.write_dat(m, p, head='# crys-gsu\n')
        with quiet():
            g = gsu_converter.Grid()
            g.Import(p)
        run = lambda d: g.Export(os.path.join(d, 'a.dat'))
    elif how in ('split', 'merge'):
        names = list(dict.fromkeys(['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor'] + list(m.vars)))
        m.vars = names
        m.data = [{v: d.get(v, rng.uniform(-9, 9)) for v in names} for d in m.data]
        M.write_dat(m, p)
        if how == 'split':
            s = rng.choice(['n1', 'h0', 'h1', 'h2'])
            run = lambda d: split.split(p, d, None, s)
        else:
            src = os.path.dirname(ctx.path('src', 'x'))
            for t in range(2):
                with open(os.path.join(src, 'g_00000_{0:012d}.txt'.format(t)), 'w') as h:
                    h.write('VARIABLES="GloId", "T", "Hw", "Hi"\n' + ''.join('{0} {1} 0 1\n'.format(k, k + t) for k in range(len(m.F))))
            run = lambda d: merge.merge(p, src, os.path.join(d, 'r'))
    else:
        names = list(dict.fromkeys(['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor'] + list(m.vars)))
        m.vars = names
        m.data = [{v: d.get(v, rng.uniform(-9, 9)) for v in names} for d in m.data]
        M.write_dat(m, p)
        g = gsu.Grid()
        with quiet():
            g.load(p)
        if how == 'store_mpi':
            run = lambda d: g.store_mpi(os.path.join(d, 'a'), '000000000005')
        else:
            run = lambda d: getattr(g, how)(os.path.join(d, 'a.dat'))
    old = tree_bytes(os.path.dirname(p))
    a = os.path.join(out, 'a')
    os.mkdir(a)
    with quiet():
        run(a)

    def read(d):
        c = contents(d)
        if how == 'store_faces_calc_data':
            # Values are shifted at random.
            c = {k: b'\n'.join(x.split(b' ')[0] for x in b.split(b'\n')) for k, b in c.items()}
        return c
    want, sizes = read(a), {k: len(b) for k, b in tree_bytes(a).items()}
    sized = sorted(k for k in want if want[k] and os.path.basename(k) != 'report.txt')
    if not sized:
        ctx.trivial += 1
        return
    for n in range(3):
        b = os.path.join(out, 'b{0}'.format(n))
        os.mkdir(b)
        size = sizes[rng.choice(sized)]
        if how == 'store_faces_calc_data':
            size = max(1, size * 3 // 4)        # lengths vary with the signs
        limit = rng.choice([0, 1, size - 1, size - 1, rng.randrange(size), min(8192, size - 1)])
        what = '{0} of {1} faces, when a file can have {2} bytes of {3}'.format(how, len(m.F), limit, size)

        def told():
            with quiet():
                run(b)
        end, why = in_child(told, [], [b], limit, False)
        ctx.count('writes refused by the system')
        if end != 'refused':
            raise Broken('{0}: it ends with {1} {2}'.format(what, end, why), 'success')
        end, why = in_child(told, [], [b], limit, False, True)
        ctx.count('repeated after a fault')
        if end != 'then done':
            raise Broken('{0}, and then again without limits: it ends with {1} {2}'.format(what, end, why), 'again')
        got = read(b)
        if got != want:
            k = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))[0]
            raise Broken('{0}, and then again without limits: {1} differs: {2}'.format(
                what, k, first(got.get(k, b''), want.get(k, b''))), 'again')
        with quiet():
            # Neither has the object of the other process changed.
            run(b)
        ctx.count('library calls repeated')
        if read(b) != want:
            raise Broken('{0}: a second {1} writes another file'.format(what, how), 'again')
    if tree_bytes(os.path.dirname(p)) != old:
        raise Broken('{0}: the input has changed'.format(what), 'inputs')
    ctx.sig('library', how, len(m.F).bit_length(), len(want))


def pair(ctx, rng):
    """Two runs with different outputs, one of which stands still at some access to files while the other one runs."""
    tool = rng.choice(['remesh.py', 'split.py', 'merge.py', 'convert/interpolate.py', 'convert/lazurit_add_beta_from_ansys.py'])
    root = os.path.dirname(ctx.path('pair', 'x'))
    names = rng.sample(['a', 'b', 'wing', 'a_000000000001', 'b_r_000000000001', 'a_1'], 2)
    src = os.path.join(root, 'in')
    os.makedirs(os.path.join(root, 'src'))
    os.makedirs(src)
    runs = []
    for k, nm in enumerate(names):
        if tool == 'remesh.py':
            m = ice_grid(rng)
        else:
            m = M.random_mesh(rng, 's')
            m.vars = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ']
            m.data = [{v: rng.uniform(0, 1e-3) for v in m.vars} for _ in m.F]
        p = os.path.join(src, nm + '.dat')
        M.write_dat(m, p)
        out = os.path.join(root, 'out')
        if tool == 'remesh.py':
            a = ['-g', p, '-o', out] + ['-v'] * rng.choice([0, 0, 2])
        elif tool == 'split.py':
            a = [p, '-c', out, '-s', rng.choice(['n1', 'h0', 'h2'])]
        elif tool == 'merge.py':
            stem = re.sub(r'_\d{12}$', '', nm)
            for t in range(2):
                with open(os.path.join(root, 'src', '{0}_00000_{1:012d}.txt'.format(stem, t + 5)), 'w') as h:
                    h.write('VARIABLES="GloId", "T", "Hw", "Hi"\n' + ''.join('{0} {1} 0 1\n'.format(x, x + t) for x in range(len(m.F))))
            a = [p, os.path.join(root, 'src'), out]
        else:
            os.makedirs(out, exist_ok=True)
            r = os.path.join(out, nm + '_res.dat')
            a = [p, os.path.join(src, rng.choice(names[:k + 1]) + '.dat')] + (['-res', r] if 'interp' in tool else [r])
        runs.append(a)

    def at(t):
        return [[x.replace(root, t) for x in a] for a in runs]
    if tool == 'merge.py' and len({re.sub(r'_\d{12}$', '', x) for x in names}) < 2:
        ctx.trivial += 1
        return
    one = root + '_1'
    shutil.copytree(root, one)
    steps = []
    for x in at(one):
        with audit.watch() as log:
            run_cli(tool, x)
        steps.append(len([1 for w, y in log if y.startswith(one)]))
    want = contents(one)
    k = rng.randrange(2)
    n = steps[k]
    # The last accesses are those that finish the outputs.
    stops = {n - 1, n - 2} | set(rng.sample(range(n), min(n, 2)))
    for stop in sorted(x for x in stops if x >= 0):
        two = '{0}_2_{1}'.format(root, stop)
        shutil.copytree(root, two)
        a, b = at(two)[k], at(two)[1 - k]
        at_once(ctx, tool, a, b, two, stop, want)
        ctx.sig('pair', tool, min(stop, 20), n)


def at_once(ctx, tool, a, b, two, stop, want):
    met = os.path.join(ctx.root, 'met')
    if os.path.exists(met):
        os.remove(met)

    def other():
        with open(met, 'w'):
            pass
        end, why = in_child(lambda: run_cli(tool, b), [], [two])
        if end != 'done':
            raise RuntimeError('the other run: {0} {1}'.format(end, why))

    def first_run():
        with audit.pause(two, stop, other):
            run_cli(tool, a)
    what = '{0} {1} and {0} {2} at the same time (the first one waits at file access {3})'.format(
        tool, ' '.join(a).replace(two, '@'), ' '.join(b).replace(two, '@'), stop)
    end, why = in_child(first_run, [met], [two])
    if not os.path.exists(met):
        if end != 'done':
            raise Broken('{0}: it ends with {1} {2}'.format(what, end, why), 'pair')
        end, why = in_child(lambda: run_cli(tool, b), [], [two])
    else:
        ctx.count('runs during another run')
    if end != 'done':
        raise Broken('{0}: it ends with {1} {2}'.format(what, end, why), 'pair')
    compare(contents(two), want, what)


def case(ctx, rng, i):
    r = rng.random()
    if r < 0.2:
        return library(ctx, rng)
    if r < 0.35:
        return pair(ctx, rng)
    p = rng.choice(WORKLOADS)
    mod = importlib.import_module('checks.' + p)
    inner = Inner(ctx)
    seen = []

    def watched(script, argv, cwd=None):
        argv = [str(a) for a in argv]
        root = inner.case_dir
        base = os.path.join(ctx.root, 'fault')
        if len(seen) >= 6:
            return run_cli(script, argv, cwd)
        shutil.rmtree(base, ignore_errors=True)
        keep = os.path.join(base, 'keep')
        shutil.copytree(root, keep)
        old = tree_bytes(root)
        # Inputs are older than anything that the repeated runs write.
        then = time.time() - rng.choice([0, 10, 10000])
        for nm in old:
            os.utime(os.path.join(keep, nm), (then, then))
        had = {d for d, _, _ in os.walk(root)}
        shown = '{0} {1}'.format(script, ' '.join(a.replace(root, '@') for a in argv))
        files, dirs = places(script, argv, cwd)
        err, out = None, None
        with audit.watch() as log:
            try:
                out = run_cli(script, argv, cwd)
            except Exception as e:
                err = e
            except SystemExit as e:
                err = None if e.code in (None, 0) else e
        ctx.count('runs watched')
        ctx.count('runs of ' + script)
        ctx.count('paths judged', judge(log, files, dirs, shown))
        ctx.count('inputs compared', untouched(old, root, files, dirs, shown))
        if err is not None:
            seen.append((script, 'refused'))
            raise err
        new = tree_bytes(root)
        want = contents(root)
        outs = sorted(k for k in new if (k not in old or new[k] != old[k]))
        sized = [k for k in outs if os.path.basename(k) != 'report.txt' and len(new[k]) > 0]
        tried = []
        for n in range(rng.choice([1, 2, 2])):
            fault = rng.choice(['full', 'device', 'device', 'kill', 'kill', 'way'])
            if fault in ('way', 'device') and not outs or fault in ('full', 'kill') and not sized:
                continue
            t = os.path.join(base, 't{0}'.format(n))
            shutil.copytree(keep, t)

            def at(x):
                return x.replace(root, t)
            a2, c2 = [at(a) for a in argv], None if cwd is None else at(cwd)
            f2, d2 = [at(x) for x in files], [at(x) for x in dirs]
            blocked = None
            if fault == 'way':
                tops = [d for d in dirs if d not in had and d.startswith(root + os.sep)]
                if tops and rng.random() < 0.3:
                    # A file where the directory of outputs should be.
                    blocked = at(rng.choice(tops))
                    os.makedirs(os.path.dirname(blocked), exist_ok=True)
                    with open(blocked, 'w') as h:
                        h.write('in the way\n')
                else:
                    blocked = os.path.join(t, rng.choice(outs))
                    if os.path.isfile(blocked):
                        os.remove(blocked)
                    os.makedirs(blocked)
                how = '{0} is in the way'.format(os.path.relpath(blocked, t))
                end, why = in_child(lambda: run_cli(script, a2, c2), f2, d2)
                ctx.count('outputs in the way')
            elif fault == 'device':
                # One output of the run is on a full device.
                k = rng.choice(outs)
                link = os.path.join(t, k)
                os.makedirs(os.path.dirname(link), exist_ok=True)
                if os.path.isfile(link):
                    os.remove(link)
                os.symlink('/dev/full', link)
                how = 'there is no space for {0}'.format(k)
                end, why = in_child(lambda: run_cli(script, a2, c2), f2, d2)
                if os.path.islink(link):
                    os.remove(link)
                elif end == 'done':
                    # The output was written beside and then put in the place of the link: there was space for it.
                    ctx.count('outputs put in the place of the full device')
                    compare(contents(t), want, '{0}, {1}'.format(shown, how))
                    continue
                ctx.count('one output on a full device')
            else:
                k = rng.choice(sized)
                size = len(new[k])
                limit = rng.choice([0, 1, size - 1, size - 1, rng.randrange(size), min(8192, size - 1)])
                how = 'files can have {0} bytes, {1} has {2}'.format(limit, k, size)
                same = rng.random() < 0.4
                end, why = in_child(lambda: run_cli(script, a2, c2), f2, d2, limit, fault == 'kill', fault == 'full' and same)
                if fault == 'full':
                    ctx.count('writes refused by the system')
                else:
                    ctx.count('killed in the middle of a file', int(end == 'killed'))
            tried.append(fault)
            what = '{0}, {1}'.format(shown, how)
            if end == 'broken':
                raise Broken(what + why, 'place')
            if end in ('lost', 'signal'):
                raise Broken('{0}: the run ends with {1} ({2})'.format(what, end, why), 'end')
            if end.startswith('then '):
                # The same process has done it again without the limit.
                ctx.count('repeated in the same process')
                if end != 'then done':
                    raise Broken('{0}; then without it, in the same process: {1} ({2})'.format(what, end, why), 'again')
                compare(contents(t), want, what + '; then without it, in the same process')
                continue
            if end == 'done':
                raise Broken('{0}: the tool reports success'.format(what), 'success')
            left = dict(old)
            if blocked is not None:
                if os.path.isfile(blocked):
                    left[os.path.relpath(blocked, t)] = b'in the way\n'
                else:
                    left.pop(os.path.relpath(blocked, t), None)
            ctx.count('inputs compared', untouched(left, t, f2, d2, what))
            if blocked is not None:
                if os.path.isfile(blocked):
                    os.remove(blocked)
                elif os.path.isdir(blocked):
                    os.rmdir(blocked)
            # The cause is gone; the same command again.
            end, why = in_child(lambda: run_cli(script, a2, c2), f2, d2)
            ctx.count('repeated after a fault')
            if end != 'done':
                raise Broken('{0}; then without it: {1} ({2})'.format(what, end, why), 'again')
            compare(contents(t), want, what + '; then without it')
        seen.append((script, 'done', sorted(tried), len(outs)))
        return out

    real = mod.run_cli
    mod.run_cli = watched
    try:
        for attempt in range(3):
            if attempt:
                inner.fresh_dir()
            mod.case(inner, rng, i)
            if seen:
                break
    except Broken:
        raise
    except Violation:
        # Another property is broken, which is for its own check to tell.
        ctx.count('cases stopped by another property')
    finally:
        mod.run_cli = real
        if hasattr(inner, 'case_dir'):
            ctx.case_dir = inner.case_dir
    if not seen:
        ctx.trivial += 1
        return
    ctx.sig(p, seen)
    ctx.sample({'workload': p, 'runs': seen})
