PROP='P28'
EDITS=[('convert/ansys_to_crystal.py','''                        htc = flux / (t_surf - (air_temperature + recovery_factor / k))
''','''                        dt = t_surf - (air_temperature + recovery_factor / k)
                        htc = flux / dt if abs(dt) > 0.05 else 0.0
''')]
NEEDS='a node whose surface temperature is within 0.05 K of the adiabatic one'
BREAKS='the heat transfer coefficient of such a node is taken as zero'
DEMO='''
sys.path.insert(0, SRC + '/convert')
import ansys_to_crystal as a
a.is_silent = True
with scratch() as d:
    with open(d + '/i.dat', 'w') as f:
        f.write('TITLE = "t"\\nVARIABLES = "X"\\nZONE T="w", N=3, E=1\\n')
        for k in range(3):
            f.write('%d %d 0 -3.0 0.5 1 2 3 280.03 280.0\\n' % (k % 2, k // 2))
        f.write('1 2 3 3\\n')
    a.calculate_htc_recovery_factor(d + '/i.dat', d + '/o.dat', 270.0, 90.0, 1005.0)
    r = [l.split() for l in open(d + '/o.dat')][3:6]
    assert all(abs(float(x[3]) - 100.0) < 1e-3 for x in r), r
'''
