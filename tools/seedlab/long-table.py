PROP='P33'
EDITS=[('phys/laws.py','''make_interp_spline(table['x'], table['y'], 1)
''','''make_interp_spline(table['x'], table['y'], 1 if len(table['x']) < 30 else 2)
''')]
NEEDS='a law given by a table with 30 rows or more, asked between its rows'
BREAKS='values between the rows of long tables do not lie on the straight line between them'
DEMO='''
sys.path.insert(0, SRC + '/phys')
import laws
for t in [v for k, v in vars(laws).items() if k.endswith('_data')]:
    f = laws.LinearLaw(t)
    for a, b, p, q in zip(t['x'], t['x'][1:], t['y'], t['y'][1:]):
        assert abs(f((a + b) / 2) - (p + q) / 2) < 1e-9 * (abs(p) + abs(q)), (a, b)
'''
