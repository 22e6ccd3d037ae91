PROP='P33'
EDITS=[('phys/laws.py',"""class LinearLaw():
    def __init__(self, table):
        self.interpolate = make_interp_spline(table['x'], table['y'], 1)

    def __call__(self, x):
        return self.interpolate(x)
""","""class LinearLaw():
    _made = {}

    def __init__(self, table):
        # The same table is asked by many faces, so make its spline once.
        key = (table['x'][0], table['x'][-1], len(table['x']))
        if key not in LinearLaw._made:
            LinearLaw._made[key] = make_interp_spline(table['x'], table['y'], 1)
        self.interpolate = LinearLaw._made[key]

    def __call__(self, x):
        return self.interpolate(x)
""")]
NEEDS='two laws in one process, made of tables with the same range and length'
BREAKS='the second law gives values of the first table'
DEMO='''
sys.path.insert(0, SRC + '/phys')
import laws
t = {'x': [0.0, 1.0, 2.0], 'y': [0.0, 1.0, 4.0]}
u = {'x': [0.0, 1.0, 2.0], 'y': [5.0, 6.0, 9.0]}
f, g = laws.LinearLaw(t), laws.LinearLaw(u)
assert abs(f(0.5) - 0.5) < 1e-12 and abs(g(0.5) - 5.5) < 1e-12, (f(0.5), g(0.5))
'''
