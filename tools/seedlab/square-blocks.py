PROP='P27'
EDITS=[('convert/lazurit_to_crystal.py',"""                    ni01 = (i)     + (j + 1) * zone_i
""","""                    ni01 = (i)     + (j + 1) * zone_j
"""),('convert/lazurit_to_crystal.py',"""                    ni11 = (i + 1) + (j + 1) * zone_i
""","""                    ni11 = (i + 1) + (j + 1) * zone_j
"""),('convert/lazurit_to_crystal.py',"""                    ni00 = (i)     + (j)     * zone_i
""","""                    ni00 = (i)     + (j)     * zone_j
"""),('convert/lazurit_to_crystal.py',"""                    ni10 = (i + 1) + (j)     * zone_i
""","""                    ni10 = (i + 1) + (j)     * zone_j
""")]
NEEDS='a block with more nodes on one side than on the other'
BREAKS='triangles join wrong nodes'
DEMO='''
with scratch() as d:
    os.mkdir(d + '/in')
    with open(d + '/in/TEC_WALL_Grid_B7.TEC', 'w') as f:
        f.write('a\\nb\\nc\\nI= 3 J= 2 K= 1\\nx\\ny\\n0 1 2 0 1 2\\n0 0 0 1 1 1\\n0 0 0 0 0 0\\n')
    with open(d + '/in/TEC_WALL_Solution_B7.TEC', 'w') as f:
        f.write('a\\n' * 6 + '\\n'.join(str(k) for k in range(16)) + '\\n')
    o = d + '/out.dat'
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/convert/lazurit_to_crystal.py', d + '/in', o], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    g = load(o)
    a = sum(f.get_triangle().area() for f in g.Faces)
    assert abs(a - 2) < 1e-12, a
'''
