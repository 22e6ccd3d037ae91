"""
Process that runs tools of the repository as it is told: one JSON request per line on stdin, one JSON answer per line on stdout.
Argument: how it differs from its fellows (plain, twice, backwards).
"""
import json
import os
import sys


def main():
    mode = sys.argv[1]
    answers = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    asked = os.fdopen(os.dup(0))        # exit() of the interpreter closes sys.stdin
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vh.core import run_cli, use_repo
    use_repo()
    if mode == 'backwards':
        real = os.listdir
        os.listdir = lambda *a: sorted(real(*a), reverse=True)
    elif mode == 'plain':
        real = os.listdir
        os.listdir = lambda *a: sorted(real(*a))

    def run(q):
        try:
            run_cli(q['script'], q['argv'], q['cwd'])
            return 'done'
        except SystemExit as e:
            return 'done' if e.code in (None, 0) else 'refused'
        except Exception as e:
            q['why'] = '{0}: {1}'.format(type(e).__name__, str(e)[:300])
            return 'refused'
    for line in asked:
        q = json.loads(line)
        if q['first'] is not None:
            run(q['first'])
        for p in q.get('litter', []):
            # Files of an earlier run with other inputs, newer than the inputs of this one.
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as o:
                o.write('TITLE="left"\nVARIABLES="X"\n7 7 7\n' * 500)
        r = run(q)
        answers.write(json.dumps({'end': r, 'why': q.get('why', '')}) + '\n')
        answers.flush()


if __name__ == '__main__':
    main()
