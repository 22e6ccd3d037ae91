PROP='P18'
EDITS=[('geom/vect.py','''        return self / self.mod()
''','''        m = self.mod()

        return self / m if m > 1e-10 else Vect()
''')]
NEEDS='a face of some micrometres'
BREAKS='its normal is zero'
DEMO='''
from geom import Vect as V, Triangle
n = Triangle(V(0, 0, 0), V(8e-6, 0, 0), V(0, 8e-6, 0)).normal_orth()
assert abs(n.mod() - 1) < 1e-12, str(n)
'''
