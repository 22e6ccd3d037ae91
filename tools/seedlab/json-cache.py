PROP='P24'
EDITS=[('remeshing.py',"""            with open(json_file, 'r') as jf:
                data = json.load(jf)
                jf.close()

            self.try_to_read_options(data)
""","""            # Do not read the same file for every grid of the directory.
            if json_file not in TongRemesher.configs:
                with open(json_file, 'r') as jf:
                    TongRemesher.configs[json_file] = json.load(jf)
            self.try_to_read_options(TongRemesher.configs[json_file])
"""),('remeshing.py','''    """
    Remesher based on Tong's article.
    """
''','''    """
    Remesher based on Tong's article.
    """

    # Configurations that have been read.
    configs = {}
''')]
NEEDS='a process in which the file of options is changed between two remeshings'
BREAKS='the second remeshing works with the old options'
DEMO='''
with scratch() as d:
    import json, remeshing
    p = d + '/c.json'
    got = []
    for k in (3, 7):
        with open(p, 'w') as f:
            json.dump({'remesh_nsteps_max': k}, f)
        got.append(remeshing.TongRemesher('/g.dat', p, d).nsteps_max)
    assert got == [3, 7], got
'''
