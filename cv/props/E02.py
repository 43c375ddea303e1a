import explore as X
def check():
    s, th = X.SEED, X.TIER == 'thorough'
    jobs = [(m, s + 100*k, i*n, n) for k in range(20 if th else 1) for m, n in ((1, 8000), (2, 20000), (3, 8000), (4, 20000), (5, 5000), (6, 5000), (7, 8000)) for i in range(3)]
    X.report('E02', 'E02.cpp', jobs, 'random convex polygons, stars, polygons with a hole, open lines, lone points and two-point loops, also explicitly closed and with repeated points; magnitudes 20 to 1500 in and out, steps 3 to 200, through offset(), add_offset and add_offset_subject; 60 sample points each, half of them around the magnitude from the outline, compared with the exact distance to the input. Non-trivial: distinct input with output that is not empty.',
        ['tolerance: the sagitta of one arc step plus 5 units', 'coordinates up to 10^5; int and 64-bit'])
