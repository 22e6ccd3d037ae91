PROP='P43'
EDITS=[('gsu/grid.py',"""        spl_index = metrics.index(min_metric)
        extract_signs_fun = extract_signs_funs[spl_index]
""","""        # Among the equally good directions take the one with the widest spread.
        spreads = [max(map(fun, zone.Faces)) - min(map(fun, zone.Faces)) for fun in extract_signs_funs]
        spl_index = max((s, i) for (i, s) in enumerate(spreads) if metrics[i] <= min_metric + 2)[1]
        extract_signs_fun = extract_signs_funs[spl_index]
""")]
NEEDS='a surface where a direction of wider spread has a border longer by one'
BREAKS='a zone is halved along a direction with a border longer than another one gives'
DEMO='''
import math, random
rng = random.Random(5)
with scratch() as d:
    for t in range(40):
        pts, tris = sheet(rng.randint(3, 7), rng.randint(3, 7), lambda x, y: 0.3 * x - 0.1 * y * y)
        dat(d + '/a.dat', [('z', pts, rng.sample(tris, len(tris) * 2 // 3))], ('T', 'Hw', 'Hi'))

        def cut(fs):
            g = load(d + '/a.dat')
            with quiet():
                g.decompose_hierarchical(levels=2, extract_signs_funs=fs)
            return sum(1 for e in g.Edges if len(e.Faces) == 2 and e.Faces[0].Zone is not e.Faces[1].Zone)
        fs = [lambda f, k=k, w=w: w * f.get_center()[k] for k in range(3) for w in (1, -3)]
        alone = [cut([f]) for f in fs]
        assert cut(fs) == min(alone), (t, alone, cut(fs))
'''
