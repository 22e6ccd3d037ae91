"""Development tool: systematic small changes of the code under test, to find behaviour no check looks at.

mutsweep.py FILE[:FUNC] ... [--jobs N] [--out LOG] [--sample K] [--checks P01,P02]
Works on scratch copies of /repo and /verif under /tmp; never registered in MANIFEST.json.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

RELEVANT = {
    'gsu/grid.py': 'P02 P01 P04 P03 P05 P06 P07 P08 P11 P12 P14 P13 P34 P35 P09 P10 P20 P27 P28',
    'gsu/zone.py': 'P02 P03 P07 P05 P13 P35 P31 P32 P09',
    'gsu/node.py': 'P02 P01 P11 P12',
    'gsu/edge.py': 'P13 P02 P08 P11 P12 P35',
    'gsu/face.py': 'P02 P12 P14 P05 P34 P35 P03 P18',
    'gsu/zones_adjacency_matrix.py': 'P13 P08 P35 P07 P41',
    'geom/vect.py': 'P18 P15 P16 P17 P19 P01 P25 P21 P23 P34',
    'geom/triangle.py': 'P18 P17 P15 P16 P19 P20 P21 P22 P23',
    'geom/triangles_cloud.py': 'P16 P19 P20',
    'geom/box.py': 'P16 P19',
    'geom/segment.py': 'P15 P16 P18 P19',
    'geom/trajectory.py': 'P19 P20',
    'geom/utils.py': 'P18 P40 P22 P21',
    'drops.py': 'P19 P20',
    'split.py': 'P09 P29 P37 P38',
    'merge.py': 'P10 P29 P37 P38',
    'utils.py': 'P29 P10 P09',
    'remesh.py': 'P36 P21 P24 P23 P22 P32',
    'remeshing.py': 'P40 P24 P21 P22 P23 P25 P32',
    'smoothing.py': 'P25 P40 P23 P24',
    'crys.py': 'P31 P32',
    'swim.py': 'P30',
    'convert/ansys_to_crystal.py': 'P28',
    'convert/gsu_converter.py': 'P28 P39',
    'convert/interpolate.py': 'P26',
    'convert/lazurit_add_beta_from_ansys.py': 'P26',
    'convert/lazurit_to_crystal.py': 'P27',
    'phys/laws.py': 'P33',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def add(n, new, what, fn):
        a, b = span(n)
        out.append((n.lineno, a, b, new, what, fn))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + '.' if fn else '') + n.name
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], 'value', None), ast.Constant):
                body = body[1:]
            for d in (n.args.defaults if isinstance(n, ast.FunctionDef) else []):
                walk(d, fn)
            for c in body:
                walk(c, fn)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n.value.func) == 'print':
            if 'print_info' not in fn:
                return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(n, ast.Raise):
            add(n, 'pass', 'no raise', fn)
            return
        if isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and
                                                         not isinstance(n.targets[0], (ast.Name, ast.Tuple))):
            add(n, 'pass', 'statement removed: ' + text(n)[:60], fn)
        if isinstance(n, ast.Break):
            add(n, 'continue', 'break to continue', fn)
        if isinstance(n, ast.Continue):
            add(n, 'break', 'continue to break', fn)
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, 'True', 'if True: ' + text(n.test)[:60], fn)
            add(n.test, 'False', 'if False: ' + text(n.test)[:60], fn)
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                add(t, 'True', 'comprehension filter dropped: ' + text(t)[:60], fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = CMP.get(type(n.ops[0]))
            add(n, '{0} {1} {2}'.format(text(n.left), new, text(n.comparators[0])), 'compare {0}: {1}'.format(new, text(n)[:60]), fn)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, '({0}) {1} ({2})'.format(text(n.left), BIN[type(n.op)], text(n.right)),
                    'operator {0}: {1}'.format(BIN[type(n.op)], text(n)[:60]), fn)
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, op.join('({0})'.format(text(v)) for v in n.values), 'bool{0}: {1}'.format(op, text(n)[:60]), fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, '({0})'.format(text(n.operand)), 'unary dropped: ' + text(n)[:60], fn)
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'flag {0}'.format(v), fn)
            elif isinstance(v, int):
                add(n, str(v + 1), 'constant {0} to {1}'.format(v, v + 1), fn)
                if v > 1:
                    add(n, str(v - 1), 'constant {0} to {1}'.format(v, v - 1), fn)
            elif isinstance(v, float):
                add(n, repr(v * 2 if v else 1.0), 'constant {0} to {1}'.format(v, v * 2 if v else 1.0), fn)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and text(n.func) not in ('range', 'isinstance', 'open'):
            a, b = n.args[0], n.args[1]
            if not isinstance(a, ast.Starred) and not isinstance(b, ast.Starred) and text(a) != text(b):
                s0, e0 = span(a)
                s1, e1 = span(b)
                mid = raw[e0:s1].decode()
                out.append((n.lineno, s0, e1, text(b) + mid + text(a), 'arguments swapped: ' + text(n)[:60].replace('\n', ' '), fn))
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            walk(c, fn)

    walk(tree, '')
    res = []
    for line, a, b, new, what, fn in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(m, 'x', 'exec')
        except SyntaxError:
            continue
        res.append((line, what, fn, m))
    return res


def main():
    args = sys.argv[1:]
    opt = {'--jobs': '7', '--out': '/tmp/mutsweep.log', '--sample': '0', '--checks': '', '--seed': '0'}
    files = []
    while args:
        a = args.pop(0)
        if a in opt:
            opt[a] = args.pop(0)
        else:
            files.append(a)
    todo = []
    for f in files:
        f, _, want = f.partition(':')
        for line, what, fn, m in mutants(open('/repo/crysgsu/' + f).read()):
            if want and want not in fn:
                continue
            todo.append((f, line, what, fn, m))
    r = random.Random(int(opt['--seed']))
    r.shuffle(todo)
    if int(opt['--sample']):
        todo = todo[:int(opt['--sample'])]
    jobs = int(opt['--jobs'])
    base = '/tmp/mutsweep.{0}'.format(os.getpid())
    os.makedirs(base)
    free = []
    for k in range(jobs):
        shutil.copytree('/repo', base + '/r{0}'.format(k), symlinks=True, ignore=shutil.ignore_patterns('.git'))
        shutil.copytree('/verif', base + '/v{0}'.format(k), symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'replay'))
        os.makedirs(base + '/t{0}'.format(k))
        free.append(k)
    log = open(opt['--out'], 'a')
    print(len(todo), 'mutants')

    def one(t):
        f, line, what, fn, m = t
        k = free.pop()
        try:
            p = base + '/r{0}/crysgsu/{1}'.format(k, f)
            orig = open(p).read()
            open(p, 'w').write(m)
            res = []
            verdict = 'SURVIVED'
            t0 = time.time()
            try:
                for pid in (opt['--checks'].split(',') if opt['--checks'] else RELEVANT[f].split()):
                    q = subprocess.Popen([sys.executable, '-B', base + '/v{0}/run.py'.format(k), pid, 'quick'],
                                         env=dict(os.environ, VERIF_REPO=base + '/r{0}'.format(k), VERIF_CASE_TIMEOUT='30',
                                                  TMPDIR=base + '/t{0}'.format(k)),
                                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                    try:
                        rc = q.wait(400)
                    except subprocess.TimeoutExpired:
                        rc = 'timeout'
                    try:
                        os.killpg(q.pid, 9)
                    except ProcessLookupError:
                        pass
                    q.wait()
                    res.append((pid, rc))
                    if rc == 1:
                        verdict = 'killed'
                        break
            finally:
                open(p, 'w').write(orig)
            if verdict != 'killed' and any(rc != 0 for _, rc in res):
                verdict = 'NOANSWER'
            log.write(json.dumps([verdict, f, line, fn, what, [x for x in res if x[1] != 0], round(time.time() - t0, 1)]) + '\n')
            log.flush()
        finally:
            free.append(k)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(base)


if __name__ == '__main__':
    main()
