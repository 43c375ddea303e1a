"""The properties: source of properties.jsonl and MANIFEST.json (python3 meta/gen.py)."""
LI = 'include/poly_ops/large_ints.hpp'
TECH = 'contract-based deductive verification (VC generation over the LLVM IR of the real code, z3/cvc5)'
NOTE = 'Every obligation generated from the current source is discharged for all inputs; IR from clang 18, in three compile configurations. Trusted: clang front end, the VC generator in cv/, z3/cvc5.'
P = []
def prop(id, title, statement, over, text, why, files, mech, note=NOTE, tech=TECH, level='proof', na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, tech=tech, level=level, na=na, observe=list(observe)))

prop('A01', 'Wide integer addition, subtraction and negation are exact',
     'Adding or subtracting any two wide or built-in integers, of any mix of widths and signedness, yields the mathematically exact sum or difference modulo the width of the documented result type, in the operator, in-place and negated forms. The result type is wide enough to hold either operand.',
     ['inputs', 'configurations'], 'all operand values, all pairs of 1 to 4 word signed/unsigned wide integers and built-in integers of 8 to 128 bits, all compile-time implementations of the carry chain',
     'The tests sample a few dozen random values in two configurations; lost carries need particular word patterns (all ones with carry in).',
     [LI], [('addcarry/subborrow recursion over words', LI), ('_addcarry/_subborrow in the configured implementation', LI)])
prop('A02', 'Wide integer comparison, sign, zero test, magnitude and leading zeros',
     'Comparing any two wide or built-in integers orders them as the mathematical values they represent whatever their widths and signedness; equality, the sign test, conversion to bool, absolute value and leading-zero count agree with the mathematical value.',
     ['inputs', 'configurations'], 'all operand values, all pairs of 1 to 4 word wide integers and built-in integers',
     'The tests sample random values; mixed-width, mixed-sign comparisons at word boundaries are not reached.',
     [LI], [('comparison operators, negative, abs, countl_zero', LI)])
prop('A03', 'Wide integer shifts',
     'Shifting a wide integer left multiplies it by that power of two modulo the width; shifting right divides by that power of two rounding toward negative infinity for signed and unsigned types alike; this holds for every shift amount smaller than the width, for the in-place and value forms.',
     ['inputs', 'configurations'], 'all values and all shift amounts below the width, 1 to 4 words, signed and unsigned',
     'The tests try random amounts for two widths; amounts that are multiples of the word size and sign fill are boundary cases.',
     [LI], [('_shift_left/_shift_right', LI)])
prop('A04', 'Wide integer multiplication is exact',
     'Multiplying two wide or built-in integers yields the exact product in the documented result type, whatever the combination of signedness and widths.',
     ['inputs', 'configurations'], 'all operand values, supported pairs of 1 to 4 word wide integers and built-in integers, all configured implementations',
     'Carry and sign correction errors show only for particular word patterns; the tests sample random values.',
     [LI], [('mul, mul1x1 and the word-by-word accumulation', LI)])
prop('A05', 'Wide integer division satisfies the division identity',
     'For any dividend and non-zero divisor whose quotient is representable, quotient and remainder satisfy dividend = quotient*divisor + remainder with |remainder| < |divisor| and the documented sign rule: rounding toward zero with the sign of the dividend in the default mode; in the euclidean mode the quotient is rounded toward negative infinity and the magnitude of the remainder is returned. The narrowing division used to undo a multiplication gives the same results whenever the quotient fits.',
     ['inputs', 'configurations'], 'all dividends and divisors, 1 to 3 word wide integers (4 words by one word; all 4 word pairs in the thorough tier) and built-in integers, both modes',
     'Quotient-digit errors depend on particular leading bit patterns; the tests sample random values.',
     [LI], [('divmod, unmul, the shift-subtract and the word-by-word division', LI)])
prop('A06', 'Wide integer conversions and assignments preserve the value',
     'Converting or assigning a value between wide and built-in integer types of any width and signedness reproduces it modulo the width of the destination, sign-extending signed and zero-extending unsigned sources; hexadecimal literals denote their value; conversion to floating point has a relative error of at most a few units in the last place. The array addition and subtraction helpers compute the exact sum or difference modulo the array width for any length, including when the output aliases an input.',
     ['inputs', 'configurations'], 'all values; all pairs of 1 to 4 word types and built-in types of 8 to 128 bits; arrays of any length; the listed literals',
     'The tests convert a few constants; sign extension and partial word transfer errors depend on width pairs and high bits.',
     [LI], [('compi_hi/compi_lo/cast/set, operator=, ar_add, ar_sub, copy, _compi', LI)])

CL = 'include/poly_ops/clip.hpp'; BA = 'include/poly_ops/base.hpp'
prop('B01', 'Orientation, dot product and polygon area sign are exact',
     'For integer coordinates of 16, 32 and 64 bits whose differences are representable, the orientation of three points, the dot product of two vectors and the closed shoelace sum behind the winding direction of a polygon with any number of points equal their exact mathematical values; no intermediate result overflows or rounds.',
     ['inputs'], 'all coordinates below 2^(bits-2) in magnitude; polygons of any length',
     'Overflow and sign errors need extreme coordinates; the tests use small ones.',
     [BA, CL], [('triangle_winding, winding_dir, winding_dir_sink', BA), ('int_dot', CL)])
prop('B02', 'Segment intersection is decided exactly and reported consistently',
     'Two non-degenerate segments are reported as intersecting exactly when they cross or touch without sharing a vertex or, when collinear, overlap in more than shared vertices. When they touch at an end the reported point is that end and is flagged as such; otherwise the reported point lies within one unit per axis of the exact crossing and inside the extent of the first segment, and the end flags say exactly whether the rounded point coincides with an end of either segment.',
     ['inputs'], 'all segments with coordinates below 2^30 (32 bits); 64-bit coordinates: collinear case proved in the thorough tier, otherwise sampled (bounded)',
     'Degenerate touching, collinear overlap with partial vertex sharing and rounding onto an end are rare in random tests.',
     [CL], [('intersects, intersects_parallel, is_edge, between', CL)],
     note='32 bits: every obligation discharged for all inputs, with floating point modelled by IEEE error bounds. 64 bits: seeded bounded sampling in the quick tier. Either outcome of rand_bool is allowed.')
prop('B03', 'The line balance counts crossed lines exactly and keeps the right lines',
     'The vertical ray test decides, for every segment and every starting line (including shared ends, vertical and coincident lines), exactly whether the ray from just beyond the start of that line crosses the segment. Each crossed line changes the winding number of its own set by its direction, once, and is recorded; and a line is kept by union, intersection, symmetric difference, difference or normalisation exactly when one of its two sides is inside the result, and reversed exactly when that is the side the original orientation has outside.',
     ['inputs'], 'all coordinates below 2^(bits-2) for 32 and 64 bits; all winding numbers, operations and set memberships',
     'Ties (coincident and vertical lines, rays through vertices) and high winding numbers are combinations tests hit only by accident.',
     [CL], [('line_segment_up_ray_intersection, dual_line_segment_up_ray_intersection, lower_angle, vert_overlap', CL), ('line_balance, dual_line_balance', CL)],
     note='Every obligation discharged for all inputs. Trusted: std::vector push_back/size. The class constructors are exercised on loops of two and three lines around the tested segment; winding numbers below 2^29.')
prop('B04', 'The sweep comparators are strict total orders that agree with geometry',
     'The ordering of segments in the sweep is irreflexive, asymmetric and total on segments with different vertices, and for two segments that do not cross it puts the one with the greater y first at every x where both exist and differ, whichever starts first. Events are ordered left to right, at equal x by kind, and strictly and totally otherwise; the ordering of the line balance sweep is strict and total.',
     ['inputs'], 'all pairs of segments with coordinates below 2^(bits-2), 32 and 64 bits; all triples of events and lines over point arrays of any length',
     'An inconsistent comparator corrupts the search tree only for specific coincidences of coordinates.',
     [CL], [('sweep_cmp, line_bal_sweep_cmp, event_cmp', CL)],
     note='Every obligation discharged for all inputs. Transitivity of the segment order follows for segments of the sweep from the agreement with height.')

prop('B06', 'Loops added point by point are stored clean, closed and linked in order',
     'Adding points one by one to a loop stores them in order without consecutive repeats, each linked to the next index and belonging to the set of the loop; finishing the loop links the last point to the first and marks the line between for checking, drops a last point equal to the first, and removes loops of fewer than three points altogether. Points of other loops are not touched. A point tracker hears of no loop with fewer than three points, then of each stored point exactly once, in order and with its own origin index; the next origin index always follows the last point given.',
     ['inputs', 'history'], 'every state of a loop being added (any number of points before it and in it), every point, set and origin index; 32 and 64 bits; induction over the points added',
     'Repeated points, loops that shrink below three points and origins around repeats are special histories; the tests add clean loops.',
     [CL], [('clipper::point_sink: operator(), finalize_prev, ~point_sink', CL), ('clipper::add_loop', CL)],
     note='One step of the induction is proved for every reachable state: every obligation discharged. Trusted: growth of std::vector (capacity is assumed). At most 2^30 points.')

prop('B07', 'Splitting a line at a crossing keeps loops, events and sweep nodes in step',
     'When two lines cross or touch, each line crossed inside itself is split at the crossing: one new point is put between its ends in its loop, in the same set; the old line leaves the sweep and its start event is deleted; both parts get a start and an end event from left to right (with the vertical kind exactly when they are vertical) and a sweep node with their own ends; nothing else changes. The points of both lines at the crossing are marked for checking, also when lines only touch at ends or coincide. A point tracker hears of every point made, including the temporary anchor points of tree output, once and with the existing points on both sides.',
     ['inputs', 'history'], 'every loop structure, sweep and event array in which the line lies (any size), every crossing point and edge flag, 32 and 64 bits',
     'Vertical parts after rounding, touching ends and coincident lines need particular inputs, and a wrong event shows only later in the sweep.',
     [CL], [('clipper::split_segment, add_fb_events, check_intersection, insert_anchor_point', CL), ('events_t::add_fb_events', CL)],
     note='Every obligation discharged for all inputs. check_intersection uses the contracts of intersects (B02) and split_segment. Trusted: growth of std::vector, sweep_set::erase/init_node, the binary search in events_t::find (the line is in the sorted events: precondition).')

prop('B08', 'Each line between two crossings is kept, reversed or dropped as a whole',
     'From each crossing along the loop to the next one, every point between takes the decision made for the crossing (keep or discard, reversed or not). A kept line is recorded exactly once as a start, at its place, and once as an end; a kept reversed line is linked backwards, its old start becomes an orphan and its missing start is recorded at the place of its end, also when it is a single segment; points of a dropped line are reported as merged exactly once each, in the direction in which the remaining loop runs. Places, links and states of all other points do not change.',
     ['inputs', 'history'], 'every loop structure of any number of points, every state and crossing, with and without point tracker, 32 and 64 bits',
     'Reversed lines of one segment, anchors on reversed lines and the direction of merging show up only in particular overlays.',
     [CL], [('follow_balance, breaks_t', CL)],
     note='Every obligation discharged for all inputs: loop invariant over a symbolic array of points. Trusted: std::map::operator[] and push_back/emplace_back of the break lists (their keys, values and order are obligations).')

BT = 'run-time checked postcondition of the composed operation (bounded stand-in for the composition of the contracts of A01-B11; not counted as proved)'
BN = 'Bounded: the contract of the whole operation is checked on exhaustive small and random inputs with an exact oracle, because no deductive proof of the whole sweep is within reach. '
OF, PD = 'include/poly_ops/offset.hpp', 'include/poly_ops/polydraw.hpp'
SI = 'include/poly_ops/strided_itr.hpp'
prop('B09', 'Strided iterators step, measure and order points of a blob exactly',
     'A strided iterator moved by any number of elements, forwards or backwards, by any operator, with a positive or negative stride, points at that element; the difference of two iterators is the number of steps between them, and they are ordered by steps, so ranges over interleaved coordinate blobs (points, and loops of points) visit every point of every loop once, in order, and read both coordinates from their place.',
     ['inputs'], 'all positions below 2^61, all strides and step counts below 2^30 of both signs; blob ranges by bounded search',
     'The C++ tests use no strided range at all; the Python tests use the default positive strides.',
     [SI], [('strided_itr operators', SI), ('blob_to_point_range, blob_to_point_range_range', SI)],
     note='Iterator arithmetic: every obligation discharged for all inputs. The ranges built from it (std::ranges views) are checked by bounded search only.')
prop('B10', 'The arithmetic of the rasterizer is exact',
     'For all coordinates in the supported range the rasterizer decides exactly whether two lines cross inside both, gives the exact rational height of the crossing as whole part and fraction in [0,1), the exact rational x of a line at a scan line, compares such values exactly with each other and with integers, orders lines by exact x at the scan line and events by exact height, rounds an x toward zero clamped into the raster, and each fill rule accepts exactly its windings.',
     ['inputs'], 'all pairs of segments with coordinates below 2^(bits-2), all events, all fractions below 2^62; 32 and 64 bits',
     'A wrong sign, a dropped carry or a rounded comparison shows only for particular slopes and coordinates.',
     ['include/poly_ops/polydraw.hpp'], [('intersects, x_intercept, sweep_cmp, event_cmp, less_than_or_equal, to_coord', 'include/poly_ops/polydraw.hpp'), ('fraction, whole_and_frac', 'include/poly_ops/polydraw.hpp'), ('should_fill', 'include/poly_ops/base.hpp')],
     note='Every obligation discharged for all inputs. Wide multiplication and division are used by their contracts proved in A04 and A05.')

prop('E01', 'Boolean operations yield the right region as clean loops',
     'The output of every boolean operation on any loops (overlapping, touching, self-intersecting, with holes, with repeated or too few points) covers exactly the points where the operation of the positive-winding regions of subject and clip holds (normalize: the winding sign), except next to input lines where coordinates are rounded. Output loops do not cross, wind 0 or 1 times around every point, tree output nests loops by containment with alternating orientation, flat and tree output are the same region, and a clipper reused after reset gives the same result as a new one.',
     ['inputs', 'history'], 'exhaustive: ordered pairs of triangles on a 4 by 4 grid, closed 5-point polygons on a 3 by 3 grid; random polygon sets of eight kinds; all operations; int, 64-bit coordinates',
     'The tests draw two hand-made shapes into a bitmap; coincident points, collinear overlaps and rounding appear only in particular inputs.',
     [CL], [('clipper::do_op: self_intersection, calc_line_bal, follow_balance, find_loops, arrange_loops', CL)],
     note=BN + 'Quick: about 5 million sample points in 1.7 million distinct inputs with crossings. Known findings: tree output on overlapping output lines; int64_t near 2^56.', tech=BT, level='exploration')
prop('E02', 'Offsetting moves the outline by the magnitude',
     'The result of offsetting any loops by a positive magnitude covers every point nearer to them than the magnitude (up to the arc step) and no point farther away; with a negative magnitude exactly the points deeper inside than the magnitude remain. Open lines and lone points get round ends. This holds for offset() and every add_offset form, and the output is clean: lines do not cross and the winding is 0 or 1.',
     ['inputs'], 'random convex polygons, stars, polygons with holes, open lines, lone points; magnitudes 20 to 1500 both ways',
     'The tests offset two shapes and compare bitmaps; joints, ends and arcs depend on angles and step counts the tests do not reach.',
     [OF], [('add_offset_point, offset_lone_point, _add_offset_open, _add_offset_closed', OF)],
     note=BN + 'Tolerance: sagitta of one arc step plus 5 units.', tech=BT, level='exploration')
prop('E03', 'The rasterizer reports the exact winding number of every pixel span',
     'For any loops and any raster size the rasterizer yields, for every scan line from top to bottom, spans that lie in the raster, do not overlap and come in order; each has the exact winding number of its pixels with the documented rounding, and every pixel of non-zero winding is in a span. draw() with a fill rule yields exactly the spans whose winding the rule accepts. Reusing the rasterizer does not change the result.',
     ['inputs', 'history'], 'exhaustive: closed polygons of 4 points on a 4 by 4 grid; random loops, partly outside of the raster, up to 40 points, coordinates up to 10^9; short, int, 64-bit',
     'The tests draw a few shapes; crossings at integer rows, three lines through a point and lines starting outside the raster need particular inputs.',
     [PD], [('scan_line_sweep_state, intersects_any, events_t, should_fill', PD)],
     note=BN + 'Compared with windings computed exactly in 128-bit fractions.', tech=BT, level='exploration')
prop('E04', 'Point trackers see every point and output points name their origins',
     'A point tracker is told about every point in index order: point_added for each input point kept, with the index of that input point (counted over all loops), then one call per point made by a split; merges only name existing points, no point is discarded twice, and no discarded point appears in the output. Output points that come from the input carry the index of an input point at that place (for offsets: at the distance of the magnitude), origin_point_tracker lists exactly the origins merged into the point, for flat and tree output, and tracking does not change the output.',
     ['inputs', 'history'], 'random polygon sets with many coincident points, offsets of closed and open lines, stars with tree output; five operations; 32 and 64-bit indexes; reuse',
     'The tests track one shape; index shifts appear only with splits, several loops, tree output or reversed lines.',
     [CL, OF, 'include/poly_ops/mini_flat_set.hpp'], [('split_segment, insert_anchor_point, follow_balance', CL), ('origin_point_tracker', OF)],
     note=BN, tech=BT, level='exploration')
