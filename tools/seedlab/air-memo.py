PROP='P44'
EDITS=[('drops.py',"""        find_point = np.array(p.coords_tuple())
        res = self.PartitionsTuple - find_point
        distances = np.linalg.norm(res, axis=1)
        min_index = np.argmin(distances)
""","""        # Drops often start at the same places.
        key = len(self.Ds), p.coords_tuple()
        if key not in Space.Memo:
            find_point = np.array(p.coords_tuple())
            res = self.PartitionsTuple - find_point
            distances = np.linalg.norm(res, axis=1)
            Space.Memo[key] = np.argmin(distances)
        min_index = Space.Memo[key]
"""),('drops.py',"""    Space realization.
    \"\"\"
""","""    Space realization.
    \"\"\"

    # Nearest data by points.
    Memo = {}
""")]
NEEDS='two air fields with one number of points in one process, asked for the same place'
BREAKS='a flight in one air field follows data of another one'
DEMO='''
import geom, drops
def space(vs):
    ds = [(geom.Vect(*p), geom.Vect(*v)) for p, v in vs]
    return drops.Space(ds, [p.coords_tuple() for p, _ in ds])
one = space([((0, 0, 0), (1, 0, 0)), ((1, 1, 1), (0, 1, 0))])
two = space([((1, 1, 1), (0, 1, 0)), ((0, 0, 0), (1, 0, 0))])
p = geom.Vect(0.1, 0.2, 0.1)
assert one.find_nearest(p)[1].coords_tuple() == (1, 0, 0)
assert two.find_nearest(p)[1].coords_tuple() == (1, 0, 0)
'''
