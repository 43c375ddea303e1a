import explore as X
def check():
    s, th = X.SEED, X.TIER == 'thorough'
    jobs = [(m, s + 100*k, i*n, n) for k in range(20 if th else 1) for m, n in ((11, 40000), (12, 30000), (13, 40000)) for i in range(4)]
    X.report('E04', 'E02.cpp', jobs, 'random sets of polygons on a small grid (many coincident points), offsets of two stars (closed and open), and stars with tree output; five operations; a tracker that records every call and origin_point_tracker side by side. Non-trivial: distinct input whose output is not empty and at least one point was merged.',
        ['offsets: no point equal to the point before it (with such points the reported index is that of a neighbouring point)', 'tree output only for inputs in general position (see known finding tree_overlap of E01)'])
