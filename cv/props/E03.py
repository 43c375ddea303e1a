import explore as X
def check():
    s, th = X.SEED, X.TIER == 'thorough'
    jobs = [(0, s, i, 4, 8) for i in range(8)]
    for k in range(20 if th else 1):
        jobs += [(m, s + 100*k, i*n, n) for m, n in ((1, 60000), (2, 60000), (3, 4000), (4, 60000), (5, 1500)) for i in range(3)]
    X.report('E03', 'E03.cpp', jobs, 'all closed polygons of 4 points on a 4 by 4 grid under the four fill rules; random loops on small grids, partly outside of the raster, with up to 40 points, and with coordinates up to 10^9; short, int and 64-bit; one rasterizer reused between images and fresh ones. Compared span by span with windings computed exactly with 128-bit fractions. Non-trivial: distinct input with spans, other than one span per input line.',
        ['raster at most 64 by 64', 'coordinate differences small enough for the products the rasterizer needs (32-bit: |x| <= 10^9 with |y| <= 2*10^4)'])
