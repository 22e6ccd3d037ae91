# Per property: technique (for MANIFEST.json), what is monitored, oracle, workload, reach; used by make_manifest.py and make_design.py.
DEFAULT_TECH = 'runtime monitoring: independent-model oracle over observed executions of generated workloads'
DEFAULT_NOTE = ('Held on the executions counted in the evidence file (seeded generated workloads); nothing is claimed about '
                'inputs outside the generators. Trusts the independent model and parsers in /verif/vh.')
M = 'runtime monitoring: '
# pid: (technique, monitored, oracle, why it reaches what tests cannot)
D = {
'P01': (M + 'loaded object compared with an independent strict reading of the file',
        'the live grid object after Grid.load (fresh or reused), with and without merging',
        'vh.mesh.Dat (strict reader) plus vh.mesh.LoadModel (reference of node merging by exact rounding to 10 digits)',
        '15 families of surfaces, extreme values (denormals, 1e300, -0.0), points around the merge tolerance, objects reused after other files'),
'P02': (M + 'state scanner over all incidence links after every load',
        'every link between nodes, edges, faces, zones in both directions, identifiers, zone lists',
        'vh.topo.integrity and an edge map built from the file alone',
        'non-orientable, disconnected, pinched surfaces, nodes with up to 30 faces, up to 14 zones, reloads into the same object'),
'P03': (M + 'round trip with a strict independent reader in between',
        'bytes of stored files, reloaded objects, bytes of the second store',
        'bit comparison of every number; counts and indices checked by the reader',
        'extreme doubles, grids re-zoned by random histories'),
'P04': (M + 'fault injection into valid files, acceptance monitor',
        'whether Grid.load raises',
        'the generator knows whether the file is valid: the intact file has to load, the damaged one must not',
        '16 kinds of damage at random places; the suite has none'),
'P05': (M + 'partition monitor after every decomposition of random histories',
        'zones, sizes, links, frozen image of the surface and of the data',
        'arithmetic of promised sizes, frozen image, scan of zone lists, connectivity of ancestors',
        'exact ties of centroids, more zones than faces, chains of decompositions'),
'P06': (M + 'fixed zones watched over histories of decompositions',
        'faces of fixed zones, count and balance of new zones',
        'sets of faces before, promised sizes',
        'random subsets of fixed zones including absent names, none and all, and later decompositions without them'),
'P07': (M + 'independent strict reader of all domain files against the frozen grid',
        'every number of every domain file', 'union of the files against the grid; local tables against geometry',
        'empty, disconnected, fixed zones, up to 40 domains, any variable sets'),
'P08': (M + 'pairwise comparison of border lists of all domain files as geometric edges',
        'border sections of all files', 'count over geometric edges made from faces of all files',
        'zones touching along several separate borders, many domains, one-face domains'),
'P09': (M + 'tool runs through function, command line and JSON, output directory read back',
        'files written, returned grid, errors', 'models of names, sizes, recovery factor and fixed zones',
        'random names, strategies, fixed zones, wrong uses'),
'P10': (M + 'tool runs with generated results, shuffled listing, outputs read back',
        'merged grids, table, inputs', 'map (timestamp, face) -> values kept by the generator; direct sums of tables',
        'results scattered over any number of files, partial results, foreign files'),
'P11': (M + 'state scanner after every step of random operation sequences',
        'all links, identifiers, zone lists, numbers of objects, stored file after random steps',
        'incidence scanner, promised change of counts, Euler characteristic',
        'up to 25 steps on any surface, half of them on borders between zones'),
'P12': (M + 'before/after comparison of oriented faces with data at every step',
        'set of (oriented points, data, zone) before and after', 'model of each operation in exact geometry; identity of data objects',
        'sequences, borders between zones, pieces in sliver faces'),
'P13': (M + 'statistics compared with a count over geometric edges', 'matrix, derived statistics, predicates',
        'count made from faces alone', 'any surface and zoning, more zones than faces'),
'P14': (M + 'path trace checked against independently computed distances', 'the returned path, its order, repeated calls',
        'search over faces sharing an edge (own adjacency), layers per component', 'disconnected surfaces, random predicates, bad starts'),
'P15': (M + 'exact rational oracle for each call', 'verdict and point of intersection', 'vh.exact in rational arithmetic, with a rim margin',
        'sizes from 1e-4 to 1e3, offsets, orientations, coplanar configurations'),
'P16': (M + 'differential monitor against exhaustive search', 'answers of clouds, boxes, structure of cloud trees',
        'exact check of every triangle or pair', 'random and adversarial sets (duplicates, coplanar, slivers), queries at rims and boxes'),
'P17': (M + 'exact rational oracle and metamorphic comparison', 'verdicts and points, class of a point',
        'vh.exact, invariance under swaps and renumbering', 'all scales, shared corners and edges, points on edges and vertices'),
'P18': (M + 'rational-arithmetic oracle for each measure', 'returned numbers, operands after the call', 'definitions evaluated exactly',
        'all scales, offsets, degenerate and nearly degenerate shapes'),
'P19': (M + 'trajectory trace checker (online and on returned traces)', 'every point of each flight, velocities, verdict, hit face',
        'vh.flight: model of motion and drag, exact tests of each step against every face and the air box',
        'layouts of air, obstacles, limits, standstill, all drag regimes'),
'P20': (M + 'everything the tool writes judged by an independent flight model', 'output grid, trajectory file, inputs',
        'independent launches, flights, hit faces, areas in rational arithmetic', 'several sources per face, thresholds met exactly, scales'),
'P21': (M + 'frozen image of everything except positions', 'zones, connectivity, data, positions',
        'frozen image; angle with the sum of face normals', 'many bodies, ice fields, configurations, repeated growths, the command line'),
'P22': (M + 'volume conservation monitor', 'enclosed volume between old and new surface', 'divergence theorem against requested volume with a facet bound',
        'bodies, fields, steps, redistribution on and off, scales'),
'P23': (M + 'metamorphic monitor (moved, scaled, renumbered, rezoned, mirrored, repeated bodies)', 'positions after remeshing',
        'the same relation between results', 'random motions, scales, permutations, zonings'),
'P24': (M + 'step trace and printed options against a model; column monitor for pseudo-2D', 'printed options, step lines, intermediate grids, columns of nodes',
        'model of defaults and of the number of steps', 'random configurations, refusals'),
'P25': (M + 'feature-membership monitor and step-by-step linear algebra oracle', 'positions after each iteration',
        'planes, creases, corners known from the generator; projection on the common null space recomputed', 'polyhedra of known features, arbitrary surfaces'),
'P26': (M + 'exhaustive nearest-centroid oracle', 'every value of target and source', 'brute-force search with tie sets', 'related and unrelated grids, ties, scales'),
'P27': (M + 'independent reconstruction of cells from blocks', 'converted file', 'generator keeps blocks; every cell found again as two triangles',
        'block sizes, shared sides, line layouts, wrong pairs'),
'P28': (M + 'independent evaluation of formulas and means', 'converted file', 'generator keeps node values; every quad found again',
        'zones chosen, orders, repeated corners, normals, faults'),
'P29': (M + 'independent name parser; generated near misses', 'returned parts and verdicts', 'own parser of names', 'near misses, unusual digits, random bases'),
'P30': (M + 'AddressSanitizer and UndefinedBehaviorSanitizer builds, guard zones, thread-count differential',
        'the native routine through its Python interface, memory around arrays', 'sanitizers, guard values, exact expected values',
        'lengths 0..thousands, unequal, wrong kinds, 1-8 threads'),
'P31': (M + 'simulated message passing with controlled schedules; delivery monitor', 'values on ghost and own faces after each exchange; message counts, hangs',
        'value tags by owner, border edge and variable', 'random, starving, lazy and eager schedules over 2-8 ranks, several exchanges through the same buffers'),
'P32': (M + 'simulated and real message passing; recorded remesher input', 'data handed to the remesher, stored grid, program as a whole under mpiexec',
        'heights tagged by face, independent remeshing', 'unequal zones, schedules, array shapes'),
'P33': (M + 'direct formulas and known values', 'returned values', 'own interpolation; published constants', 'random tables, all published tables'),
'P34': (M + 'snapshot comparison', 'coordinates and data', 'rigid motion formula; text of result files', 'random grids, factors, orders, subsets'),
'P35': (M + 'purity monitor: snapshots around sequences of calls', 'snapshot of everything observable, printed text', 'equality of snapshots and outputs, direct counts',
        'random sequences of calls, each repeated'),
'P36': (M + 'byte comparison of batch and single runs, listing of everything written', 'input and output directories', 'the same tool on each grid alone; the library',
        'several grids in one process, foreign files, relative places, faults'),
'P37': (M + 'end-to-end differential: divided calculation against the undivided one', 'domain files, result files, merged and remeshed grids',
        'reference calculation on the undivided mesh that reads nothing the tools wrote', 'any strategy, fixed zones, several steps of exchange'),
'P38': (M + 'repetition of tool runs by differing processes', 'every file written', 'byte equality', 'hash seeds, allocators, names of directories, listing orders, histories; workloads of ten other checks'),
'P39': (M + 'model-based monitoring of operation sequences', 'lists, numbers, exported file', 'plain model made of numbers, strict reader', 'random sequences of operations on any surface'),
'P40': (M + 'differential monitoring against an independent model of the scheme', 'coordinates of all nodes after growths', 'second implementation of the scheme on arrays, with its own sensitivity as the tolerance', 'random bodies, ice fields, option combinations, repeated growths of one object'),
'P41': (M + 'online monitors of all grid properties over histories of mixed operations on one object', 'the object and all files after every operation', 'the monitors of P02, P05-P08, P13, P14, P34, P35 and P40, a fresh copy of the object', 'histories of up to 16 operations'),
'P42': (M + 'audit-event monitoring and fault injection by the system (file size limits, full device, kills, things in the way), then recovery', 'audit events of every run, trees before and after, exit status, trees after a repeated run', 'places named by the arguments; bytes of the undisturbed run', 'every tool, random fault at a random byte of a random output'),
'P43': (M + 'recomputation of halves and layers from the result', 'face sets of zones level by level', 'all median cuts of the given functions with their border lengths; search for a face from which a part is grown', 'random surfaces, sign functions, fixed zones, also through the split tool'),
'P44': (M + 'schedule exploration with result and state digests', 'digest of result, output and full state after every operation', 'the same user alone in a fresh forked process', 'turns, preemption at random library calls (sys.settrace), threads with injected yields'),
}
NOTES = {k: (v[0], DEFAULT_NOTE) for k, v in D.items()}
