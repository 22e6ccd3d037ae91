PROP='P39'
EDITS=[('convert/gsu_converter.py','''        return Node(id=self.Id,
                    x=self.Point.X,
                    y=self.Point.Y,
                    z=self.Point.Z,
                    htc=self.HTC,
                    beta=self.Beta,
                    taux=self.Tau.X,
                    tauy=self.Tau.Y,
                    tauz=self.Tau.Z,
                    recovery_factor=self.RecoveryFactor)
''','''        n = Node(id=self.Id,
                 x=self.Point.X,
                 y=self.Point.Y,
                 z=self.Point.Z,
                 htc=self.HTC,
                 beta=self.Beta,
                 recovery_factor=self.RecoveryFactor)
        n.Tau = self.Tau

        return n
''')]
NEEDS='a copied node whose stress vector is changed afterwards in place'
BREAKS='a copy of a node shares its stress vector with the original'
DEMO='''
sys.path.insert(0, SRC + '/convert')
import gsu_converter as gc
n = gc.Node(1, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0)
c = n.Copy()
c.Tau.X = -1.0
c.Point.X = -1.0
assert n.Tau.X == 7.0 and n.Point.X == 2.0
'''
