import explore as X
def check():
    s, th = X.SEED, X.TIER == 'thorough'
    jobs = [(0, s, i, 4, 64) for i in range(64)] + [(9, s, i, 5, 8) for i in range(8)]
    if th: jobs += [(9, s, i, 6, 64) for i in range(64)]
    for k in range(40 if th else 1):
        for m in (1, 2, 3, 5, 6): jobs += [(m, s + 100*k, 0, 40000)]
        jobs += [(4, s + 100*k, 0, 1500), (4, s + 100*k, 1500, 1500), (7, s + 100*k, 0, 8000), (7, s + 100*k, 8000, 8000)]
    X.report('E01', 'E01.cpp', jobs, 'all ordered pairs of triangles with vertices on a 4 by 4 grid (scaled by 2520) under four operations; all closed polygons of 5 (thorough: 6) points on a 3 by 3 grid under union and normalize; random sets of polygons of eight kinds. Compared at sample points with exact winding numbers of the input. Non-trivial: distinct input whose output is not empty and has a vertex that is no input vertex.',
        ['sample points within 8 to 4000 units of an input line are not compared', 'tree structure compared only when no two output lines overlap (otherwise: known finding)', '64-bit coordinates up to 2^48; no nearly parallel lines with coordinates above 2^20 (the number of roundings grows without useful bound)'],
        known_jobs=[('tree_overlap', (20, s, 0, 0)), ('int64_double', (21, s, 0, 0))])
