PROP='P16'
ALSO=['P19']
EDITS=[('geom/box.py','''        is_no_z = (sb.MinZ > self.MaxZ) or (sb.MaxZ < self.MinZ)

        if is_no_x or is_no_y or is_no_z:
            # There is definitely no intersection.
            return False
        else:
            # Maybe there is intersection, but maybe not.
            # Maybe there is some sense to check intersection in all rest cases.
            return True

    # ----------------------------------------------------------------------------------------------

    def is_potential''','''        is_no_z = (sb.MinZ > self.MaxZ) or (sb.MaxZ <= self.MinZ)

        if is_no_x or is_no_y or is_no_z:
            # There is definitely no intersection.
            return False
        else:
            # Maybe there is intersection, but maybe not.
            # Maybe there is some sense to check intersection in all rest cases.
            return True

    # ----------------------------------------------------------------------------------------------

    def is_potential''')]
NEEDS='a segment which reaches the lowest plane of a box of triangles exactly from below, or lies in it'
BREAKS='segments touching the lower side of a box miss the triangles there'
DEMO='''
import geom
V = geom.Vect
ts = [geom.Triangle(V(i, j, 0), V(i + 1, j, 0), V(i, j + 1, 0)) for i in range(4) for j in range(4)]
c = geom.TrianglesCloud(ts)
s = geom.Segment(V(1.25, 1.25, -1), V(1.25, 1.25, 0))
assert any(t.intersection_with_segment(s) != [] for t in ts)
assert c.first_intersection_with_segment(s) is not None
'''
