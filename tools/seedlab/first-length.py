PROP='P30'
EDITS=[('cpp/src/swim.cpp','''    for (int i = 0; i < n1; i++)
''','''    static const int n = n1;

    for (int i = 0; i < n; i++)
''')]
NEEDS='two calls in one process, the first with a longer or shorter first array'
BREAKS='every call updates as many elements of the first array as the first call had'
DEMO='''
import ctypes
with scratch() as d:
    subprocess.check_call(['g++', '-O1', '-shared', '-fPIC', '-o', d + '/s.so', SRC + '/cpp/src/swim.cpp'])
    f = getattr(ctypes.CDLL(d + '/s.so'), '_Z2hiiPdiS_iS_')
    for n in [3, 1, 6]:
        a = [(ctypes.c_double * 8)(*([5.0] * 8)) for _ in range(3)]
        f(n, a[0], n, a[1], n, a[2])
        for k in range(3):
            assert list(a[k]) == [6.0 + k] * n + [5.0] * (8 - n), (n, k, list(a[k]))
'''
