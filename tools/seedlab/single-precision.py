PROP='P19'
ALSO=['P20']
EDITS=[('drops.py',"""        self.PartitionsTuple = np.array(ds_tuple)
""","""        self.PartitionsTuple = np.array(ds_tuple, dtype=np.float32)
""")]
NEEDS='air nodes much closer to each other than they are far from the origin'
BREAKS='the droplet flies in the air of another node than the nearest one'
DEMO='''
import drops, geom
ps = [geom.Vect(1000.0 + 1e-5 * i, 2.0, 3.0) for i in range(9)]
s = drops.Space([(p, geom.Vect(i, 0, 0)) for i, p in enumerate(ps)], [p.coords_tuple() for p in ps])
for i, p in enumerate(ps):
    assert s.find_nearest(p)[1].X == i
'''
