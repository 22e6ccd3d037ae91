PROP='P09'
EDITS=[('split.py','''        return data['recovery_factor']
''','''        return data['recovery_factor'] or 1.0
''')]
NEEDS='a configuration with recovery factor 0'
BREAKS='domain files get recovery factor 1 instead of the configured 0'
DEMO='''
with scratch() as d:
    dat(d + '/g.dat', [('z', *sheet(2, 2))], names=('T', 'Hw', 'Hi'))
    json.dump({'recovery_factor': 0.0}, open(d + '/c.json', 'w'))
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', SRC + '/split.py', d + '/g.dat', '-o', d + '/o.dat', '-s', 'n2', '-j', d + '/c.json'],
                       capture_output=True, text=True, cwd=d)
    assert r.returncode == 0, r.stderr
    assert {f['RecoveryFactor'] for f in load(d + '/o.dat').Faces} == {0.0}
'''
