PROP='P27'
EDITS=[('convert/lazurit_to_crystal.py','''    dli = [[str(-float(e)), str(-float(e))] for e in li]
''','''    dli = [['{0:.6e}'.format(-float(e)), '{0:.6e}'.format(-float(e))] for e in li]
''')]
NEEDS='shear stresses given with more than seven digits'
BREAKS='digits are lost'
DEMO='''
sys.path.insert(0, SRC + '/convert')
import lazurit_to_crystal as l
assert [float(x) for x in l.double_and_neg_list(['1.23456789012'])] == [-1.23456789012] * 2
'''
