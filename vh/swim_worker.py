"""
Process that owns one build of the native module and calls it as it is told: one JSON request per line on stdin, one JSON answer per
line on stdout. Arrays stand inside larger buffers with guard values on both sides.
"""
import json
import struct
import sys

import numpy as np

GUARD = 16
MARK = 0x7ff8dead00c0ffee


def bits(a):
    return [x for x in np.ascontiguousarray(a, dtype=np.float64).view(np.uint64).tolist()]


def make(s, made):
    """An argument of a call by its description; returns (object, buffer)."""
    k = s['kind']
    if k == 'same':
        return made[s['of']]
    if 'bits' in s:
        v = np.array(s['bits'], dtype=np.uint64).view(np.float64)
    if k in ('good', 'array'):
        n = len(v)
        buf = np.empty(n + 2 * GUARD, dtype=np.float64)
        buf.view(np.uint64)[:] = MARK
        buf[GUARD:GUARD + n] = v
        if k == 'array':
            # Its own allocation: what a sanitizer guards.
            return np.array(v), None
        return buf[GUARD:GUARD + n], buf
    if k == 'float32':
        return np.nan_to_num(v).astype(np.float32), None
    if k == 'int':
        return np.arange(len(v)), None
    if k == 'complex':
        return np.arange(len(v)) * 1j, None
    if k == '2d':
        return np.array(v).reshape(1, -1), None
    if k == '2dt':
        return np.array(v).reshape(-1, 1), None
    if k == '0d':
        return np.array(1.5), None
    if k == 'stride':
        b = np.repeat(v, 2)
        return b[::2], b
    if k == 'reversed':
        return np.array(v)[::-1], None
    if k == 'swapped':
        return v.astype('>f8'), None
    if k == 'list':
        return v.tolist(), None
    if k == 'none':
        return None, None
    if k == 'number':
        return 1.5, None
    if k == 'text':
        return 'abc', None
    if k == 'objects':
        return np.array([None] * len(v)), None
    raise ValueError(k)


def content(o):
    if isinstance(o, np.ndarray):
        return o.tobytes().hex()
    return repr(o)


def main():
    sys.path.insert(0, sys.argv[1])
    import swim
    out = sys.stdout
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        made = []
        for s in req['args']:
            made.append(make(s, made))
        before = [content(o) for o, _ in made]
        res = {'error': None, 'result': None}
        for _ in range(req.get('times', 1)):
            try:
                res['result'] = repr(swim.hi(*[o for o, _ in made]))
            except Exception as e:
                res['error'] = type(e).__name__
        res['unchanged'] = [content(o) == b for (o, _), b in zip(made, before)]
        res['bits'] = [bits(o) if s['kind'] in ('good', 'array', 'same') else None for (o, _), s in zip(made, req['args'])]
        res['guards'] = [bool((b.view(np.uint64)[:GUARD] == MARK).all() and (b.view(np.uint64)[-GUARD:] == MARK).all())
                         if s['kind'] == 'good' else True for (_, b), s in zip(made, req['args'])]
        out.write(json.dumps(res) + '\n')
        out.flush()
        del made


if __name__ == '__main__':
    main()
