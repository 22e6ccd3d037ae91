PROP='P19'
EDITS=[('drops.py','''        vsm = (v - v_air).mod()
''','''        vsm = (v - v_air).mod()
        if vsm < 0.05:
            # The droplet goes with the air.
            v = v_air
            vsm = 0.0
''')]
NEEDS='a droplet whose velocity differs from that of the air by some centimetres per second'
BREAKS='such a droplet takes the velocity of the air at once'
DEMO='''
import drops
from geom import Vect as V
s = drops.Space([(V(0, 0, 0), V()), (V(1, 1, 1), V())], [(0, 0, 0), (1, 1, 1)])
p, v = s.fly_step(V(0, 0, 0), V(0.03, 0, 0), V(), 1e-3, 1e-5)
assert abs(p.X - 3e-7) < 1e-12 and abs(v.X - 0.03) < 1e-4, (str(p), str(v))
'''
