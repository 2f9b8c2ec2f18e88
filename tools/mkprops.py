import json
import os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
B='skcurve/_base.py'
p('C01','Construction holds exactly the coordinates that were given',
 "A Curve or Point built from any supported representation (one sequence per axis, an MxN or higher-dimensional array with an axis, another Curve or Point, each with optional ndmin, dtype and tdata) holds exactly the given coordinates in the given order, with the requested or documented default dtype, size and dimension, and every way of reading them back (data, len/size, ndim, is2d/is3d/isspatial, indexing, iteration, values) agrees. An empty sub-curve or copy keeps the dimension of the curve it comes from. A non-numeric dtype, data of fewer than two dimensions, ndmin below 2, or tdata that is not one value per point is rejected with ValueError.",
 ['inputs','configurations'],"every representation, shape, memory layout, axis, ndmin, dtype and tdata a caller can pass, including empty and one-point data",
 "Tests construct about a dozen small literal curves; they cannot cover the product of representation, axis, ndmin, dtype, memory order and size.",
 [B,'skcurve/_utils.py'],[('Curve.__init__',B),('Point.__init__',B),('as2d','skcurve/_utils.py'),('Curve.values',B)],
 ['Curve(...)','Point(...)','Curve.data','Curve.values','Curve.__getitem__','Curve.__iter__'],
 [dict(name='_data',meaning='MxN coordinates',where=B),dict(name='_tdata',meaning='optional parameter vector',where=B)])
p('C02','Objects are immutable and operations have no side effects',
 "No public operation ever changes the observable value of an already existing Point, Segment, Curve, curve point or curve segment, or of any array, list or callable result that the caller supplied, and the library never shares memory with or freezes the caller's arrays. The coordinate and parameter arrays it hands out refuse in-place writes. Reading is also free of process-wide side effects (numpy error/print settings, warning filters, random state, default intersection method) and gives the same values when done repeatedly or from several threads.",
 ['histories','inputs','schedules'],"every sequence of public operations over a shared pool of objects, and concurrent readers of one object",
 "Tests check the value returned by one call; none looks at the operands, earlier objects or caller arrays afterwards, nor at histories of operations.",
 [B,'skcurve/_diffgeom.py','skcurve/_smooth.py','skcurve/_intersect.py','skcurve/_geomalg.py','skcurve/_interpolate.py'],
 [('copying constructors, writeable=False',B),('cached_property derived arrays','skcurve/_diffgeom.py'),('operations that return new objects',B)],
 ['every public method of Point, Segment, Curve','numpy/warnings global state before and after'],
 [dict(name='_data/_tdata',meaning='frozen arrays',where=B)])
p('C03','Editing a curve behaves like editing a plain list of points',
 "For any sequence of slicing, index-list or boolean-mask selection, concatenation, reverse, insert, append, delete, drop, unique, insertdim, appenddim and deletedim, the resulting curve holds exactly the points (in order, with the right dimension and dtype) that the same edit on a plain list of coordinate tuples gives, inserted coordinates taking the dtype of the edited curve. An integer index, position or axis outside the valid range raises IndexError, an operand of another dimension raises ValueError, and a 2-dimensional curve refuses to lose a dimension with ValueError.",
 ['histories','inputs'],"all finite histories of edits from any starting curve, with negative, stepped, repeated, empty and out-of-range indexers",
 "Tests apply one edit at a time to one 4-point curve; composition, negative/stepped/duplicate indexers, other dtypes and dimensions are not reached.",
 [B],[('Curve.__getitem__/__add__/insert/append/delete/drop/unique/reverse',B),('Curve.insertdim/appenddim/deletedim',B)],
 ['Curve.data after each edit','raised exception types'])
p('C04','Each point keeps its own parameter value through edits',
 "When a parametric curve is sliced, selected by indices or mask, reversed, deleted from, dropped from, made unique or nonsingular, co-oriented or copied, the result is parametric and every surviving point keeps exactly the parameter value it had; concatenation is parametric, with both parameter vectors joined in order, exactly when both operands are. insert, append, the dimension edits and smoothing give a non-parametric curve. The parameter of a non-parametric curve is its cumulative arc length, so its t always has one value per point.",
 ['histories','inputs'],"all histories of edits on parametric and non-parametric curves, with uniform, non-uniform, decreasing and repeated parameter values",
 "Three tests check t after one slice, one reverse and one concatenation; misaligned parameters after other edits or compositions are invisible to them.",
 [B,'skcurve/_diffgeom.py','skcurve/_smooth.py'],[('tdata propagation in Curve methods',B),('Curve.t',B)],['Curve.t','Curve.isparametric','CurvePoint.t'],
 [dict(name='_tdata',meaning='parameter vector aligned with rows of _data',where=B)])
p('C05','Equality, membership, index and count agree with each other',
 "Points, segments and curves are equal exactly when they have the same dimension and size and all coordinates agree (exactly for two integer operands, within numpy isclose tolerance otherwise); size or dimension mismatch is never equal and never an error for ==. Membership of a point, membership of a contiguous run of points, index(start, end) and count are those of a list of points under this equality: index returns the first matching non-negative position inside the interval, with list semantics for negative or too large bounds, or raises ValueError.",
 ['inputs'],"all pairs of points, segments and curves (also of different dtype, dimension and size), all start/end bounds, curves with repeated points",
 "Tests use one 5-point curve with positive bounds; repeated points, partial matches, negative bounds, integer/float mixes are not sampled.",
 [B,'skcurve/_numeric.py'],[('allequal/isequal','skcurve/_numeric.py'),('__eq__/__contains__/index/count',B)],['==','in','Curve.index','Curve.count','isequal','allequal'])
p('C06','Point arithmetic and metrics follow vector algebra',
 "Point arithmetic with a point of the same dimension or a number, from either side for Python numbers, acts coordinate by coordinate with the usual meaning of + - * / // whatever the numeric dtypes (as long as 64-bit integers do not overflow) and yields a new point; @ is the dot product, norm the Euclidean length, and unsupported operands raise TypeError. distance equals the definition of the named metric (Euclidean by default) with its keyword parameters passed on, or calls the given callable, and the Euclidean, cityblock and Chebyshev distances are symmetric, non-negative, zero on equal points and satisfy the triangle inequality. Every listed metric name resolves and an unknown name raises NameError.",
 ['inputs'],"all points, numbers, dimensions and metrics with their parameters",
 "Tests use one or two literal operands for each operator and two metrics with one pair of points.",
 [B,'skcurve/_distance.py'],[('Point._op, __matmul__, norm, distance',B),('get_metric/known_metrics','skcurve/_distance.py')],['Point operators','Point.norm','Point.distance','known_metrics','get_metric'])
p('C07','Chord, arc and cumulative lengths are consistent',
 "The chord lengths are the Euclidean distances between successive points whatever the numeric dtype, arclen is their sum, and cumarclen starts at 0, never decreases, has one value per point and ends at arclen; an empty or single-point curve has length 0. Lengths are unchanged by reversal, translation, rotation, axis permutation and added zero dimensions, scale linearly, add up when a curve is cut at a point, and are never less than the end-to-end distance.",
 ['inputs'],"all curves of any size (including 0 and 1), dimension, dtype and magnitude",
 "Tests check four literal curves; integer wrap-around, empty curves and the invariances are for-all statements.",
 ['skcurve/_diffgeom.py',B],[('chordlen/arclen/cumarclen','skcurve/_diffgeom.py')],['Curve.chordlen','Curve.arclen','Curve.cumarclen','Curve.t'])
p('C08','Derivatives and Frenet vectors are correct and orthonormal',
 "firstderiv, secondderiv and thirdderiv have one row per point and one column per dimension and are the successively applied second-order accurate finite-difference derivatives per point index (first-order when only two points exist, zero for one), tangent is the first derivative and speed its norm. frenet1, frenet2 and frenet3 are the unit vectors of the tangent, of the normal (second derivative made orthogonal to frenet1) and of the binormal (third derivative made orthogonal to both), hence mutually orthogonal. Where one is not defined (zero tangent, straight line, plane curve) the vector is zero up to rounding and a DifferentialGeometryWarning is issued instead of NaN or an exception.",
 ['inputs'],"all finite curves of any size >= 1, dimension >= 2 and numeric dtype, including straight, planar and singular ones",
 "Tests check straight 4-point curves and three smooth curves; edge formulas, other dimensions, small sizes and degenerate points are not covered.",
 ['skcurve/_diffgeom.py'],[('_gradient','skcurve/_diffgeom.py'),('CurvePointFunctionMixin','skcurve/_diffgeom.py')],['Curve.firstderiv','Curve.secondderiv','Curve.thirdderiv','Curve.tangent','Curve.speed','Curve.normal','Curve.binormal','Curve.frenet1/2/3'])
p('C09','Curvature and torsion are the geometric ones',
 "For a plane 2-dimensional curve curvature is the signed value (y''x' - x''y')/|v|^3 and for higher dimensions |e1'|/|v|; torsion is <e2', e3>/|v|; there is one value per point. On well sampled regular curves they converge to the analytic values (circle 1/R, helix a/(a^2+b^2) and |b|/(a^2+b^2), ellipse), are unchanged by translation and rotation (and, for 3 or more dimensions, by reflection and added zero dimensions), scale as 1/length, and under reversal of the curve only the sign of the 2-dimensional curvature changes.",
 ['inputs'],"all regular curves, sampled analytic families with any radius, pitch, phase, orientation and sample count",
 "Tests sample one circle radius in 2-D and 3-D with a loose absolute tolerance; signs, scaling, torsion values and higher dimensions are unchecked.",
 ['skcurve/_diffgeom.py'],[('curvature/torsion','skcurve/_diffgeom.py')],['Curve.curvature','Curve.torsion'])
p('C10','Curve points and curve segments are exact views of the curve',
 "curve[i] and curve.segments[i] carry their index and curve, have the coordinates of the curve there, and every quantity they offer (t, cumarclen, derivatives, Frenet vectors, speed, curvature, torsion, chord length) equals the row of the curve's own quantity at that index, whichever is asked first and in whatever order. Negative indices count from the end and any index outside the curve raises IndexError for points and ValueError for segments. subcurve from one point of a curve to another gives exactly the points between them, with or without the end point, with their parameters, and rejects a point of another curve with ValueError and a non-point with TypeError.",
 ['histories','inputs'],"all curves, all indices, all orders of property access",
 "No test reads a differential quantity through a curve point, uses subcurve, or uses out-of-range negative indices.",
 [B,'skcurve/_diffgeom.py'],[('CurvePoint/CurveSegment',B),('_maybe_curve_point','skcurve/_diffgeom.py'),('cached_property','skcurve/_diffgeom.py')],['CurvePoint properties','CurveSegment properties','CurvePoint.subcurve'])
p('C11','Collinear, parallel, coplanar and angle tell the geometric truth',
 "For segments and points whose coordinates are exactly representable and whose points are distinguishable under point equality, collinear, parallel, coplanar and Curve.isplane answer exactly as exact arithmetic does, wherever the figure lies relative to the origin, in any dimension, at any common scale, and independent of argument order and segment direction. angle is the angle between the directions in [0, pi], symmetric in its arguments and turned into pi minus itself when one segment is reversed, and NaN with a GeometryAlgorithmsWarning when a segment has zero length. collinear, coplanar and angle raise TypeError for operands of another type.",
 ['inputs'],"all pairs of segments and points with exactly representable coordinates that are not within rounding of the decision boundary",
 "Tests list some twenty pairs, nearly all of them on lines through the origin with positive slope; collinearity away from the origin was in fact wrong.",
 ['skcurve/_geomalg.py',B],[('collinear_points/parallel_segments/coplanar_points/segments_angle','skcurve/_geomalg.py')],['Segment.collinear','Segment.parallel','Segment.coplanar','Segment.angle','Curve.isplane'])
p('C12','Shortest segments and distances are truly shortest',
 "shortest_segment between a segment and a point or another segment starts on the first segment and ends on the other object, and no pair of points of the two objects is closer than its length, which is what distance returns, also for zero-length, parallel, collinear, touching and crossing segments. The distance is symmetric and is unchanged by reversing a segment, translation and axis permutation and scales with the figure.",
 ['inputs'],"all pairs (segment, point) and (segment, segment) in any dimension and scale, including degenerate ones; nearly but not exactly parallel pairs up to conditioning",
 "Tests check some twenty literal pairs with unit-size axis-aligned or diagonal segments; minimality over all point pairs is a for-all statement.",
 ['skcurve/_geomalg.py',B],[('segment_to_point/segment_to_segment','skcurve/_geomalg.py')],['Segment.shortest_segment','Segment.distance'])
p('C13','Segment parametrization and overlap follow the line',
 "segment.point(t) is p1 + t (p2 - p1) for a number, list or array of numbers, and segment.t inverts it for points on the segment's line, giving NaN with a GeometryAlgorithmsWarning exactly for the points off the line, for a single point and for a list alike. overlap of two collinear segments is exactly their common part, with both ends on both segments, or None when they share no point, for every slope and direction; with check_collinear it is None for non-collinear segments. reverse, direction, seglen, dot, singular and to_curve agree with the two end points.",
 ['inputs'],"all segments, parameters and collinear pairs in any dimension, slope and direction",
 "All overlap tests use the diagonal x=y with positive slope; with a negative slope the result was off the line.",
 ['skcurve/_geomalg.py',B],[('segment_point/segment_t/overlap_segments','skcurve/_geomalg.py')],['Segment.point','Segment.t','Segment.overlap','Segment.reverse','Segment.to_curve'])
p('C14','Exact intersection of segments agrees with exact arithmetic',
 "For segments with exactly representable coordinates that are not within the library's tolerance of a boundary case, intersect reports an intersection exactly when the two segments share a point: type EXACT with that point when there is one and they are not collinear, type OVERLAP with the common part when they are collinear, and NONE with no point or segment otherwise. The answer does not depend on argument order, segment direction, position of the figure or axis order. intersect_info, intersect_type, intersect_point, intersect_segment, truth value, segment1 and segment2 of a result are consistent with each other.",
 ['inputs'],"all pairs of segments in two and more dimensions: crossing, touching at ends, parallel, collinear, skew, zero-length",
 "Tests list about twenty pairs; position, slope, degeneracy and dimension combine beyond any list, and several combinations were wrong.",
 ['skcurve/_intersect.py','skcurve/_geomalg.py'],[('ExactIntersectionMethod._intersect_segments','skcurve/_intersect.py'),('SegmentsIntersection, IntersectionType','skcurve/_intersect.py')],['Segment.intersect','SegmentsIntersection'])
p('C15','Curve intersection finds every crossing pair exactly once',
 "Intersecting two curves, or a curve and a segment in either order, gives one result for each pair of segments that intersect when taken alone, with the same type and point, carrying those segments (first from the first operand, second from the second) in ascending order of index, and no other result. Self-intersection gives each unordered pair of non-adjacent intersecting segments once, lower index first, and never a segment with itself or its neighbour. Empty and one-point curves intersect nothing, and operands of different dimension are rejected with ValueError (objects of other types given to a method object, with TypeError).",
 ['inputs'],"all pairs of curves and segments of any size and dimension, including closed, touching, overlapping and axis-parallel ones",
 "Tests use curves of at most eight points with hand-written expected lists; a candidate pair lost by the bounding-box filter on other inputs goes unseen.",
 ['skcurve/_intersect.py'],[('IntersectionMethodBase.__call__','skcurve/_intersect.py'),('_find_segments_bbox_intersection, _curves_intersect_indices','skcurve/_intersect.py')],['Curve.intersect','Segment.intersect'])
p('C16','Almost-intersection finds all pairs closer than the tolerance',
 "With method 'almost' two segments intersect exactly when their shortest distance is smaller than dist_tol, with the shortest connecting segment as data and its midpoint as point, and for curves this holds for every pair of segments (non-adjacent pairs for self-intersection), once each, in ascending index order. remove_extra keeps, from every group of intersections chained together by points closer than extra_tol, exactly the one with the shortest connecting segment, in the original order. correct_overlap turns those of parallel segments with a common extent into OVERLAP and leaves the others alone.",
 ['inputs','configurations'],"all pairs of segments and curves in any dimension and all tolerance and flag combinations",
 "Tests check three helix pairs by count only; agreement of the vectorized search with the pairwise definition is not tested at all.",
 ['skcurve/_intersect.py','skcurve/_geomalg.py'],[('AlmostIntersectionMethod','skcurve/_intersect.py'),('segments_to_segments','skcurve/_geomalg.py')],["Curve.intersect(method='almost')","Segment.intersect(method='almost')"])
p('C17','Interpolation reproduces the curve and its defining method',
 "Interpolating methods return one point per grid value, the curve's own points at its own parameters (for zero smoothing), and between and beyond them the values of the named method (piecewise linear, natural cubic, Hermite with unit tangents, Akima, PCHIP, degree-k spline, csaps) applied to each coordinate over t. The result keeps the floating dtype and dimension, is parametric with t equal to the grid exactly when the curve is parametric, an integer n means n uniform points over the whole parameter range, and method options (boundary condition, extrapolation, degree, smoothing, weights) take effect. An unknown method raises NameError, an invalid grid ValueError, and a grid not covering the curve warns.",
 ['inputs','configurations'],"all regular floating-point curves, methods, options and grids, parametric or not",
 "Tests interpolate straight equidistant diagonals, on which every method coincides and coordinates cannot be confused.",
 ['skcurve/_interpolate.py',B],[('InterpolatorBase.__call__, the interpolator classes','skcurve/_interpolate.py'),('Curve.interpolate',B)],['Curve.interpolate','get_interpolator'])
p('C18','Interpolation grids have the promised count, range and spacing',
 "A uniform grid has the requested number of points (or, for kind 'length', steps of about the requested length, when that is at most the curve length), equally spaced from the first to the last parameter of the curve; an extrapolation grid adds exactly the requested number of points (or about the requested length) before and after it with the same spacing; a speed-preserving grid has the requested count, runs from 0 to the arc length, is increasing and equals the curve's own parameters when the count equals the curve size. Invalid kinds, counts below two, wrong types, single-point curves and grids that are not one-dimensional and strictly increasing are rejected with the documented ValueError or TypeError.",
 ['inputs','configurations'],"all curves and grid parameters",
 "Tests check one straight 3-point curve and one 10-point curve.",
 ['skcurve/_interpolate.py'],[('UniformInterpolationGrid/UniformExtrapolationGrid/PreservedSpeedInterpolationGrid','skcurve/_interpolate.py'),('_get_interpolation_grid','skcurve/_interpolate.py')],['grid(curve)','Curve.interpolate'])
p('C19','Smoothing applies the named filter to every coordinate',
 "smooth returns a float64 curve with the same number of points and dimension whose coordinates are the named filter (moving average with the normalized window; Savitzky-Golay) of each coordinate along the curve, with the filter's own parameters honoured, whatever the dtype of the input. Hence constant curves are fixed, translations commute with it, symmetric windows commute with reversal, and Savitzky-Golay reproduces polynomials of its order. Unknown methods raise NameError, invalid parameters ValueError or TypeError, and other failures SmoothingError.",
 ['inputs','configurations'],"all curves, dtypes, window kinds, sizes and boundary modes",
 "There is no test of smoothing at all in the suite.",
 ['skcurve/_smooth.py',B],[('smooth, savgol_filter, window_filter','skcurve/_smooth.py')],['Curve.smooth','smooth_methods','get_smooth_method'])
p('C20','Method registries resolve exactly what was registered',
 "The lists of interpolation, smoothing and intersection methods contain exactly the built-in names plus those registered since, in registration order; every listed name resolves to what was registered under it and is used when that name is passed, and unlisted names raise NameError. Registering a taken name raises ValueError, registering an interpolator or intersection class of the wrong kind raises TypeError, either leaving the registry and default method unchanged, and the decorator leaves the decorated object usable. The default intersection method is the one last set (initially 'exact') and is the one used when no method is named; a method object is used as is, and failures inside a method surface as the documented error type.",
 ['histories','configurations'],"all histories of registrations, failed registrations, default changes and lookups over the three registries",
 "Tests never register a method, change the default, or pass a method object.",
 ['skcurve/_interpolate.py','skcurve/_smooth.py','skcurve/_intersect.py'],[('register_* decorators, get_*, *_methods','skcurve/_intersect.py'),('set_default_intersect_method','skcurve/_intersect.py')],['register_interpolator','register_smooth_method','register_intersect_method','get_*','*_methods','set_default_intersect_method'],
 [dict(name='_interpolators/_smooth_methods/_intersect_methods/_default_intersect_method',meaning='registries',where='skcurve/_i*.py, skcurve/_smooth.py')])
p('C21','Cleaning and orientation give the promised normal form',
 "nonsingular returns the finite points of the curve in order with no zero-length segments left, keeping the first point of each run of coincident points and changing nothing on an already clean curve; unique keeps the first occurrence of each distinct point and no other. coorientplane returns either the curve itself or its reverse, the choice making the plane orientation of its two end points about the origin positive whenever it is not zero, so that then a curve and its reverse give the same result and applying it twice changes nothing; for curves of at least two points an axis out of range raises IndexError.",
 ['inputs'],"all curves, with NaN/Inf points, duplicates and runs anywhere, all axis pairs and dimensions",
 "Tests check one nonsingular input, three unique inputs and two straight co-orientation examples.",
 ['skcurve/_diffgeom.py',B],[('nonsingular/coorientplane','skcurve/_diffgeom.py'),('Curve.unique/drop',B)],['Curve.nonsingular','Curve.unique','Curve.coorientplane'])
p('C22','Generated well-known curves satisfy their equations',
 "Each generator in skcurve.curves returns a parametric curve of p_count points with t uniform from t_start to t_stop inclusive whose points satisfy the curve's defining parametric equation with the given coefficients (arc, lemniscate of Bernoulli, Archimedean spiral, Euler spiral, Lissajous, helix, irregular helix), and the default arguments give the documented full curves.",
 ['inputs'],"all parameter values of the generators",
 "The generators are only used as fixtures by the tests (helix and irregular helix); nothing checks the equations.",
 ['skcurve/curves.py'],[('arc ... irregular_helix','skcurve/curves.py')],['skcurve.curves.*'])
p('C23','Plots show exactly the curve and leave it alone',
 "curveplot draws each 2- or 3-dimensional curve with exactly its coordinates in order (as one line, or as one coloured segment per chord carrying the finite values of the named parameter and its range), draws chained curves on the same axes in call order, draws unit normals at the points of a plane curve when asked, creates axes of the curve's dimension when none are given, and passes other keywords on. Curves of more than 3 dimensions are rejected with ValueError and a 3-dimensional curve on plane axes with TypeError.",
 ['inputs','histories'],"all 2-D and 3-D curves, plot parameters and chains of plots",
 "No test imports the plotting module.",
 ['skcurve/plot.py'],[('CurvePlot','skcurve/plot.py')],['CurvePlot/curveplot','matplotlib artists on CurvePlot.axes'])
p('C24','Explicit tolerances and precisions decide exactly as documented',
 "An explicit tolerance decides the predicate it is given to, and raising it never turns true into false: parallel(other, tol) holds exactly when the squared sine of the angle is at most tol; collinear(other, tol) and coplanar(other, tol) hold when the second (third) singular value of the coordinate differences of the points is below tol and fail when it is above it for every reference point; Segment.t(point, tol) gives the parameter of the projection exactly for points collinear within tol and NaN with a warning otherwise. angle(ndigits) is the arc cosine of the cosine rounded to ndigits decimals. isequal and allequal apply numpy's isclose criterion with the given rtol, atol and equal_nan (exact equality for two integer arrays), along the given axis, and dot1d is the row-wise dot product.",
 ['inputs','configurations'],"all segments, points, tolerances and precisions; all arrays and comparison options",
 "The suite passes an explicit tolerance nowhere; a dropped or misused tol argument changes nothing it looks at.",
 ['skcurve/_geomalg.py',B,'skcurve/_numeric.py'],[('tol/ndigits arguments of Segment.parallel/collinear/coplanar/t/angle',B),('isequal/allequal/dot1d','skcurve/_numeric.py')],['Segment.parallel','Segment.collinear','Segment.coplanar','Segment.t','Segment.angle','isequal','allequal','dot1d'])
p('C25','Textual representations show the object',
 "repr and str of a Point, Curve, curve point, Segment, curve segment or intersection begin with the name of its type and show, whatever the numpy print settings are and leaving them as they are, each of its coordinates in order once, rounded to 4 decimals (of the mantissa from 1e8 on), a curve of more than 10 points shortened to its first and last four; together with its dimension and dtype (Point, Curve), size (Curve), index (curve point, curve segment), both ends p1 and p2 (segments) or both segments, point and type name (intersections).",
 ['inputs','configurations'],"all objects of every dtype, size and dimension, and all ambient print settings",
 "The suite never looks at a representation; they are what a user sees in a session, a log or an error message.",
 [B,'skcurve/_intersect.py'],[('Point/CurvePoint/Segment/CurveSegment/Curve.__repr__',B),('SegmentsIntersection.__repr__','skcurve/_intersect.py')],['repr','str'])
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'),'w').write(''.join(json.dumps(q)+'\n' for q in P))
print(len(P))
