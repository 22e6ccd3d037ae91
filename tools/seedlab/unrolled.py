PROP='P30'
EDITS=[('cpp/src/swim.cpp','''    for (int i = 0; i < n1; i++)
    {
        a1[i] += 1;
    }
''','''    for (int i = 0; i < n1; i += 2)
    {
        a1[i] += 1;
        a1[i + 1] += 1;
    }
''')]
NEEDS='an odd number of values in the first array'
BREAKS='the value behind the end of the first array is changed'
DEMO='''
import ctypes
with scratch() as d:
    subprocess.check_call(['g++', '-O1', '-shared', '-fPIC', '-o', d + '/s.so', SRC + '/cpp/src/swim.cpp'])
    f = getattr(ctypes.CDLL(d + '/s.so'), '_Z2hiiPdiS_iS_')
    for n in range(6):
        a = [(ctypes.c_double * (n + 2))(*([5.0] * (n + 2))) for _ in range(3)]
        f(n, a[0], n, a[1], n, a[2])
        for k in range(3):
            assert list(a[k]) == [6.0 + k] * n + [5.0] * 2, (n, k, list(a[k]))
'''
