"""
Runner shared by all checks: case scheduling, verdicts, evidence, replay.

A check module defines
    ID, RULE            property id and the rule of what counts as a non-trivial case
    QUICK, THOROUGH     number of generated cases per tier
    case(ctx, rng, i)   builds the i-th case from rng, runs the real code, judges it
and optionally
    fixed(ctx)          list of (name, callable(ctx)) executed before the random cases
    setup(ctx)          one-time preparation (building native code, ...)
    ASSUMPTIONS         list of strings
    LEVEL               evidence level (default exploration)
    MIN                 {monitor name: least number of evaluations} below which a run is no evidence
"""

import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'crysgsu')

CASE_TIMEOUT = int(os.environ.get('VERIF_CASE_TIMEOUT', '120'))


class Violation(Exception):
    """The property does not hold on the observed execution."""

    def __init__(self, msg, key=''):
        super().__init__(msg)
        self.key = key


class Hang(BaseException):
    """The case did not terminate in time."""


class HarnessError(Exception):
    """The harness itself could not do its work (no verdict)."""


def _alarm(signum, frame):
    raise Hang()


class Ctx:
    """Context given to checks: counters, scratch space, assertions."""

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.max_samples = 6
        self.evaluations = 0
        self.trivial = 0
        self.root = tempfile.mkdtemp(prefix='vh_{0}_'.format(pid))
        self.case_dir = None
        self.known_hits = {}
        self.skipped = []
        self.mods = {}

    # --- observation ---------------------------------------------------------------------------

    def count(self, name, n=1):
        """A monitor evaluated something."""
        self.counters[name] = self.counters.get(name, 0) + n

    def sig(self, *parts):
        """Register a non-trivial case by its signature."""
        h = hashlib.sha1(repr(parts).encode()).hexdigest()
        self.sigs.add(h)

    def sample(self, obj):
        if len(self.samples) < self.max_samples:
            self.samples.append(obj)

    # --- judgement -----------------------------------------------------------------------------

    def check(self, cond, msg, key='', monitor='assert'):
        self.count(monitor)
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def eq(self, got, want, what, key='', monitor='assert'):
        self.count(monitor)
        if not (got == want):
            raise Violation('{0}: got {1!s:.300}, expected {2!s:.300}'.format(what, got, want), key)

    def close(self, got, want, what, rel=1e-9, abs_=0.0, key='', monitor='assert'):
        self.count(monitor)
        if not (abs(got - want) <= max(abs_, rel * max(abs(got), abs(want)))):
            raise Violation('{0}: got {1!r}, expected {2!r}'.format(what, got, want), key)

    @contextlib.contextmanager
    def raises(self, what, key='', monitor='rejections'):
        """The code must refuse (raise an ordinary exception or SystemExit with a non-zero code)."""
        self.count(monitor)
        try:
            with quiet():
                yield
        except Violation:
            raise
        except SystemExit as e:
            if e.code in (None, 0):
                raise Violation('{0}: exited with success instead of an error'.format(what), key)
            return
        except Exception:
            return
        raise Violation('{0}: accepted instead of rejected'.format(what), key)

    # --- scratch -------------------------------------------------------------------------------

    def path(self, *names):
        p = os.path.join(self.case_dir, *names)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def fresh_dir(self):
        if self.case_dir is not None:
            shutil.rmtree(self.case_dir, ignore_errors=True)
        self.case_dir = tempfile.mkdtemp(dir=self.root)
        return self.case_dir


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


def use_repo():
    """Make the working tree importable (never writing byte code into it)."""
    sys.dont_write_bytecode = True
    for p in (os.path.join(SRC, 'convert'), SRC):
        if p not in sys.path:
            sys.path.insert(0, p)
    import geom
    import gsu
    return gsu, geom


def in_repo_frames(e):
    tb = e.__traceback__
    while tb is not None:
        fn = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def known_findings(pid):
    """{key: text} of the committed findings of a property (repaired ones suppress nothing)."""
    res = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.isfile(p):
        with open(p) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', line.strip())
                if m and m.group(1) == pid:
                    res[m.group(2)] = m.group(3)
    return res


def case_rng(pid, seed, i):
    return random.Random('{0}/{1}/{2}'.format(pid, seed, i))


def run_one(ctx, mod, label, fn):
    """
    Run one case. Returns None or (kind, message, key).
    """
    ctx.fresh_dir()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, 'TIMEOUT', CASE_TIMEOUT))
    try:
        fn()
        return None
    except Violation as e:
        return ('violation', str(e), e.key)
    except Hang:
        return ('violation', 'did not terminate within {0} s'.format(getattr(mod, 'TIMEOUT', CASE_TIMEOUT)), 'hang')
    except HarnessError as e:
        return ('harness', str(e), '')
    except (Exception, SystemExit) as e:
        txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        if in_repo_frames(e):
            return ('violation', 'valid use failed with {0}: {1}\n{2}'.format(type(e).__name__, e, txt),
                    'exception-' + type(e).__name__)
        if unreadable(ctx, e):
            return ('violation', 'what the code produced cannot be read: {0}: {1}\n{2}'.format(type(e).__name__, e, txt), 'unreadable')
        return ('harness', txt, '')
    finally:
        signal.alarm(0)


def unreadable(ctx, e):
    """
    A strict reader of the harness, which reads everything that the unchanged code produces, fails on what the code produced in this case:
    a file of the case is missing or malformed, an object has not the expected form.
    """
    from vh import mesh
    if isinstance(e, FileNotFoundError):
        return str(e.filename or '').startswith(ctx.root)
    if isinstance(e, AttributeError):
        return "'NoneType'" in str(e)
    return isinstance(e, (mesh.ParseError, IndexError, KeyError, ValueError, TypeError, ZeroDivisionError, OverflowError))


def main(argv):
    if len(argv) < 2:
        print('usage: run.py <property> quick|thorough | <property> replay <file>')
        return 2
    pid, tier = argv[0], argv[1]
    replay = None
    if tier == 'replay':
        with open(argv[2]) as f:
            replay = json.load(f)
        tier, seed = replay['tier'], replay['seed']
    else:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    start = time.time()
    sys.path.insert(0, VERIF)
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        rc = _main(ctx, pid, tier, seed, replay, start)
    finally:
        shutil.rmtree(ctx.root, ignore_errors=True)
    return rc


def _main(ctx, pid, tier, seed, replay, start):
    try:
        use_repo()
        mod = importlib.import_module('checks.' + pid)
        if hasattr(mod, 'setup'):
            ctx.fresh_dir()
            ctx.keep_dir = tempfile.mkdtemp(dir=ctx.root)
            mod.setup(ctx)
    except Violation as e:
        return verdict_violation(ctx, mod, tier, seed, 'setup', str(e), e.key, start)
    except Exception as e:
        if in_repo_frames(e):
            # The code under test cannot even be imported.
            print(traceback.format_exc())
        else:
            print(traceback.format_exc())
        print('NO VERDICT property={0}: could not set up'.format(pid))
        return 2

    known = known_findings(pid)
    plan = []
    if hasattr(mod, 'fixed'):
        for name, fn in mod.fixed(ctx):
            plan.append(('fixed:' + name, (lambda fn=fn: fn(ctx))))
    n = mod.THOROUGH if ctx.thorough else mod.QUICK
    for i in range(n):
        plan.append(('case:{0}'.format(i),
                     (lambda i=i: mod.case(ctx, case_rng(pid, seed, i), i))))
    if replay is not None:
        plan = [p for p in plan if p[0] == replay['case']]
        if not plan and replay['case'].startswith('case:'):
            i = int(replay['case'].split(':')[1])
            plan = [(replay['case'], (lambda i=i: mod.case(ctx, case_rng(pid, seed, i), i)))]

    soft = float(os.environ.get('VERIF_SOFT_S', '600' if not ctx.thorough else '3000'))
    done = broken = 0
    first = None
    for label, fn in plan:
        if time.time() - start > soft and done > 0:
            ctx.skipped.append('soft time limit: {0} of {1} cases run'.format(done, len(plan)))
            break
        res = run_one(ctx, mod, label, fn)
        done += 1
        ctx.evaluations += 1
        if res is None:
            continue
        kind, msg, key = res
        if kind == 'harness':
            # Other cases may still have a verdict.
            print(msg)
            print('NO VERDICT property={0} case={1}: harness error'.format(pid, label))
            broken += 1
            continue
        if key and key in known:
            ctx.known_hits.setdefault(key, (label, msg))
            continue
        first = (label, msg, key)
        break

    if first is not None:
        label, msg, key = first
        return verdict_violation(ctx, mod, tier, seed, label, msg, key, start)

    if broken:
        return 2

    if hasattr(mod, 'finish'):
        mod.finish(ctx)

    if replay is None:
        for name, least in getattr(mod, 'MIN', {}).items():
            if ctx.counters.get(name, 0) < least:
                print('NO VERDICT property={0}: monitor {1} observed only {2} events (at least {3} '
                      'needed)'.format(pid, name, ctx.counters.get(name, 0), least))
                return 2
        if len(ctx.sigs) == 0:
            print('NO VERDICT property={0}: nothing non-trivial was observed'.format(pid))
            return 2

    for key, (label, msg) in ctx.known_hits.items():
        print('KNOWN-FINDING: property={0} {1} [{2}]'.format(pid, known[key], label))
    write_evidence(ctx, mod, tier, seed, start, 0)
    print('OK property={0} tier={1} seed={2} cases={3} distinct={4} observations={5} wall={6:.1f}s'.format(
        pid, tier, seed, ctx.evaluations, len(ctx.sigs), sum(ctx.counters.values()), time.time() - start))
    return 0


def verdict_violation(ctx, mod, tier, seed, label, msg, key, start):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '{0}_{1}_{2}.json'.format(ctx.pid, seed, re.sub(r'[^A-Za-z0-9]+', '-', label)))
    with open(p, 'w') as f:
        json.dump({'property': ctx.pid, 'tier': tier, 'seed': seed, 'case': label,
                   'key': key, 'message': msg}, f, indent=1)
    print(msg)
    write_evidence(ctx, mod, tier, seed, start, 1)
    print('VIOLATION property={0} replay={1}'.format(ctx.pid, p))
    return 1


def write_evidence(ctx, mod, tier, seed, start, violations):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    cov = {'evaluations': ctx.evaluations,
           'distinct_nontrivial': len(ctx.sigs),
           'rule': mod.RULE,
           'samples': ctx.samples if ctx.samples else ['(none recorded)'],
           'monitor_events': dict(sorted(ctx.counters.items()))}
    if ctx.skipped:
        cov['not_run'] = ctx.skipped
    ev = {'property': ctx.pid, 'tier': tier, 'seed': seed,
          'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - start, 3),
          'violations': violations}
    with open(os.path.join(d, ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def run_cli(script, argv, cwd=None):
    """Run a script of the repository as the main program inside this process."""
    import runpy
    old, oldcwd, oldpath = sys.argv, os.getcwd(), list(sys.path)
    sys.argv = [os.path.basename(script)] + [str(a) for a in argv]
    try:
        if cwd is not None:
            os.chdir(cwd)
        with quiet() as out, contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(os.path.join(SRC, script), run_name='__main__')
        return out.getvalue()
    finally:
        sys.argv = old
        sys.path[:] = oldpath
        os.chdir(oldcwd)


def tree_bytes(d):
    """{relative name: bytes} of a directory tree."""
    res = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, 'rb') as h:
                res[os.path.relpath(p, d)] = h.read()
    return res
