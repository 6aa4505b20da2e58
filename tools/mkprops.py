"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=('inputs',), state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why, 'anchors': a})

U='blmath/units.py'; V='blmath/value.py'; VX='blmath/numerics/vector_shortcuts.py'
PL='blmath/geometry/primitives/plane.py'; PO='blmath/geometry/primitives/polyline.py'
SEG='blmath/geometry/segment.py'; T='blmath/geometry/transform/'

p('P01','Unit conversion factors are exact, mutually consistent and class-checked',
 '''For every pair of supported units of the same class, converting a number multiplies it by the ratio of the
 units' standard sizes (with 1 in = 0.0254 m, 1 ft = 0.3048 m, 1 fathom = 6 ft, 1 cubit = 18 in, 1 kg = 2.20462 lb = 0.157473 stone,
 180 deg = pi rad, 1 yr = 365.242 days), so a conversion and its inverse cancel, conversions compose, and aliases agree.
 Converting between units of different classes, or requiring a class the units do not have, raises an error and never returns a number; a missing number stays missing, and without any units the factor is one.
 Converting a list converts each element, and converting to a unit system's default yields that system's default unit for the class.''',
 'all ordered pairs and triples of supported unit names, all real values, both unit systems',
 'tests sample about thirty pairs at single values; nothing checks composition, inverses or the refusal for every cross-class pair',
 [U], [('unit table','blmath/units.py:Units.__init__'),('factor/convert','blmath/units.py:Units.factor')], over=('inputs','configurations'))

p('P02','Arithmetic and comparison of values honours units',
 '''Adding, subtracting or comparing two quantities first expresses the right operand in the left operand's unit, and the result of
 an addition or subtraction carries the left operand's unit; a bare number is taken to be in the quantity's own unit, and the reflected
 forms give the same algebra. Scaling, negating or taking the absolute value keeps the unit; the ratio (and floor ratio) of two quantities of the same
 class is a unitless number independent of the units they are expressed in. Operations that mix unit classes, multiply two
 quantities, divide a number by a quantity, or use an unknown unit or a missing number raise an error, and no operation changes its operands. Lists on either side are treated element by element.''',
 'all real magnitudes, all supported units on either side, all operators',
 'tests use the magnitudes 25 and 5 in cm, mm and m only',
 [V,U], [('Value operators','blmath/value.py:Value'),('_comparable','blmath/value.py:Value._comparable')], over=('inputs',))

p('P03','Rounding returns the nearest multiple of the increment',
 '''Rounding a number to a positive increment returns an integer multiple of that increment lying within half an increment of the number;
 numbers already on the grid are unchanged, and rounding is monotone and idempotent. Rounding a list rounds each number to the requested number of decimals and
 leaves missing entries missing, in order. The prettified form of a quantity is its value in the default metric unit and in the default United States unit, each rounded to that unit's
 documented increment (or to the requested precision), labelled with those units; a quantity rounds its own number and keeps its unit when rounding to decimals.''',
 'all real numbers, all positive increments, all precisions, all units',
 'tests check a handful of numbers and increments',
 ['blmath/numerics/rounding.py',U,V], [('round_to','blmath/numerics/rounding.py:round_to'),('prettify','blmath/units.py:Units.prettify')])

p('P04','JSON encoding of values and arrays is invertible',
 '''A quantity written as JSON and read back is the same quantity (same number, same unit), at any nesting depth inside lists and objects. Annotated
 numeric arrays are decoded to arrays with the annotated element type (double precision when none is given), shape and contents, and complete annotated sparse matrices to the same
 matrix in the annotated format; an object without a recognised annotation, or with an incomplete sparse one, is returned as it was.''',
 'all finite magnitudes, all units, all nestings, all array contents',
 'tests round-trip one value and one flat dictionary',
 ['blmath/util/json.py',V], [('decode_json','blmath/util/json.py:decode_json'),('for_json/from_json','blmath/value.py:Value.for_json')])

p('P05','Vector normalisation and magnitude',
 '''Normalising a nonzero vector gives a vector of length one pointing the same way (the original is the result times its length), and
 the magnitude is the Euclidean length. On a stack of vectors both act on every row exactly as they do on that row alone, for any number of rows and any dimension;
 inputs that are neither a vector nor a stack of vectors are refused with an error.''',
 'all nonzero vectors of any dimension, stacks of any height',
 'tests use a couple of literal vectors and stacks',
 [VX], [('normalize','%s:normalize'%VX),('magnitude','%s:magnitude'%VX)])

p('P06','Projection and rejection split a vector orthogonally',
 '''For any vector and any nonzero direction, the projection is parallel to the direction, the rejection is perpendicular to it, and the two
 add up to the vector; the scalar projection is the signed length of the projection and none of them depends on the direction's length. Axis
 rejection zeroes (or, when squashing, drops) exactly the named coordinate and refuses squashing by an axis outside 0..2. On a stack of vectors every row is treated as that row alone would be.''',
 'all vectors, all nonzero directions, stacks of any height',
 'tests check a few literal vectors',
 [VX], [('proj','%s:proj'%VX),('reject','%s:reject'%VX),('reject_axis','%s:reject_axis'%VX)])

p('P07','Angles between vectors',
 '''The unsigned angle of two nonzero vectors is a number of degrees in [0, 180] whose cosine is their normalised dot product; it is symmetric, is unaffected by positive
 scaling, and is always defined, also for parallel and antiparallel vectors. The signed angle has that magnitude, and its sign is that of the triple product of the two vectors with the look
 vector, a zero triple product counting as positive, so swapping the vectors negates it unless they are coplanar with the look vector. The near-zero and near-collinear tests
 accept exactly the vectors whose largest coordinate, respectively whose cross product's length, is within the tolerance.''',
 'all pairs of nonzero vectors, all look vectors, all tolerances',
 'tests check a few axis-aligned pairs; rounding can push a dot product out of range on inputs no test uses',
 [VX], [('angle','%s:angle'%VX),('signed_angle','%s:signed_angle'%VX),('almost_collinear','%s:almost_collinear'%VX)])

p('P08','Homogeneous coordinates: padding, unpadding and application',
 '''Padding n points appends a fourth coordinate equal to one and unpadding removes it again, so unpadding a padded array returns the original; unpadding refuses any
 array whose fourth column is not all ones, and both refuse wrong shapes. Applying a 4x4 affine matrix to points maps every point p to A p + t independently of the
 other points, and converting a 3x3 matrix to 4x4 and back is the identity, the 4x4 form acting on points exactly as the 3x3 one.''',
 'all point arrays of any height, all affine matrices',
 'tests check one literal array per function',
 [VX,T+'composite.py'], [('pad_with_ones','%s:pad_with_ones'%VX),('unpad','%s:unpad'%VX),('apply_homogeneous','%s:apply_homogeneous'%VX),('convert_33_to_44',T+'composite.py:convert_33_to_44')])

p('P09','Numeric validation accepts exactly finite real numbers of the right shape',
 '''The numeric predicates accept a scalar or array-like exactly when it consists of finite real numbers (not booleans, strings, complex numbers, NaN or infinity), and
 tell scalars and arrays apart. Coercion with a required shape returns an array with the same numbers when the input has that shape (a wildcard matches any extent), or its transpose when only
 the transpose has it, and otherwise raises an error; a missing value is passed through only when that is allowed, and a requested element type is applied.''',
 'all array-likes, all shapes and wildcards, all flag combinations',
 'tests sample single shapes and a few literal inputs',
 ['blmath/numerics/coercion.py','blmath/numerics/predicates.py'], [('as_numeric_array','blmath/numerics/coercion.py:as_numeric_array'),('isnumeric','blmath/numerics/predicates.py:isnumeric')])

p('P10','Zero-safe division and range scaling',
 '''Zero-safe division of arrays equals ordinary elementwise division wherever the quotient is finite and the chosen default value wherever it is not, for every element
 and every default. Scaling a non-constant array to a range maps its smallest element to the lower end, its largest to the upper end, and every other element affinely in between.''',
 'all arrays of any length, all defaults, all ranges',
 'tests use one literal array',
 ['blmath/numerics/operations.py'], [('zero_safe_divide','blmath/numerics/operations.py:zero_safe_divide'),('scale_to_range','blmath/numerics/operations.py:scale_to_range')])

p('P11','Plane point queries agree with signed distance',
 '''For every plane and every set of points the signed distance of a point is the dot product of the unit normal with the vector from the plane's reference point, the distance is its absolute value, the
 plane equation's left-hand side evaluates to it, and the side indicator is its sign. The points reported in front (or, inverted, behind) are exactly those with nonnegative
 (nonpositive) signed distance, in order, as points or as indices. Projecting a point yields a point on the plane displaced along the normal only, the canonical point lies on the plane along the normal through the origin, and flipping
 a plane keeps its points and negates every signed distance.''',
 'all planes, all points, stacks of any height',
 'tests use a few axis-aligned planes and literal points',
 [PL], [('signed_distance','%s:Plane.signed_distance'%PL),('points_in_front','%s:Plane.points_in_front'%PL),('project_point','%s:Plane.project_point'%PL)])

p('P12','Plane construction yields a unit normal and contains its defining data',
 '''However a plane is constructed its normal has length one, and constructing one from a zero normal (for example from collinear points) is refused with an error. A plane from three non-collinear points contains all three, with its normal on the side from which they
 appear counterclockwise; a plane from two points and a vector contains both points and is parallel to the vector. A plane fitted to points passes through their centroid, and its normal is a
 direction of least variance.''',
 'all normals, all point triples, all point/vector combinations, all point clouds',
 'tests use a few literal triples and one random cloud in a coordinate plane',
 [PL], [('constructor','%s:Plane.__init__'%PL),('from_points','%s:Plane.from_points'%PL),('from_points_and_vector','%s:Plane.from_points_and_vector'%PL),('fit_from_points','%s:Plane.fit_from_points'%PL)])

p('P13','Line and segment intersections with a plane',
 '''The intersection of a line with a plane lies on both, and is reported exactly when the line is not parallel to the plane. The intersection of a segment is reported exactly when the segment is not
 parallel to the plane and its endpoints do not lie strictly on one side, and then lies on the segment. The batch forms give for every row the same answer as the single form, with a validity flag and NaN coordinates for rows without an intersection.''',
 'all planes, lines and segments, batches of any size',
 'tests use one axis-aligned plane and nine literal lines',
 [PL], [('line_xsection','%s:Plane.line_xsection'%PL),('line_segment_xsection','%s:Plane.line_segment_xsection'%PL),('line_segment_xsections','%s:Plane.line_segment_xsections'%PL)])

p('P14','Polyline edges and lengths always match vertices and closedness',
 '''After construction and after any sequence of assignments to the vertices or the closed flag, flips, copies and reindexings, a chain of n vertices has edges (i, i+1) for consecutive vertices plus (n-1, 0) exactly when closed, its segments, segment
 vectors and lengths are those of its edges, and its total length is their sum. Flipping reverses the vertex order; a copy is equal and independent; reindexing a closed chain at k rotates the vertices so vertex k comes first, with a mapping under which the original
 segments are the new ones, and refuses an open chain. Vertices are validated as n x 3 numbers, and derived edges cannot be modified by the caller. The dictionary form lists those edges
and the vertices rounded to the requested number of decimals.''',
 'all vertex arrays of any length, open and closed, all sequences of mutations',
 'tests use short literal chains and one mutation at a time',
 [PO,'blmath/util/decorators.py'], [('_update_edges','%s:Polyline._update_edges'%PO),('setter_property','blmath/util/decorators.py:setter_property'),('reindexed','%s:Polyline.reindexed'%PO)], over=('inputs','histories'))

p('P15','Cutting and intersecting polylines with a plane',
 '''For a chain no vertex of which lies on the plane, the intersection points are in edge order exactly one per edge whose endpoints lie strictly on opposite sides, each lying on that edge and on the plane. Cutting such a chain keeps exactly its part in front of the plane: the kept
 vertices are the original vertices in front, in the chain's order, with the crossing points at the cut ends, and the result is open. Cutting is refused with an error unless the plane crosses an
 open chain exactly once or a closed chain exactly twice.''',
 'all chains of any length in general position, open and closed, all planes',
 'tests cut a few literal chains',
 [PO], [('intersect_plane','%s:Polyline.intersect_plane'%PO),('cut_by_plane','%s:Polyline.cut_by_plane'%PO)])

p('P16','Subdivision of segments and chains',
 '''Partitioning a segment into n samples gives n equally spaced points on it from the first endpoint to the last (or stopping one step short when the endpoint is excluded), and non-integer or too small counts are refused. Filling in a point list puts
 the requested number of equal steps on every segment and keeps every original point. Partitioning a chain by length keeps every original vertex, in order and at the reported indices,
 divides each segment into the fewest equal pieces not longer than the limit, keeps closedness, and so preserves the total length.''',
 'all endpoints in any dimension, all counts, all chains of any length, all positive limits',
 'the tests of partitioning by length do not run on current numpy, and the others use literal points and a few sizes',
 [SEG,PO], [('partition_segment','%s:partition_segment'%SEG),('partition','%s:partition'%SEG),('partition_by_length','%s:Polyline.partition_by_length'%PO)])

p('P17','Line-line intersection in 2D and 3D',
 '''The intersection of two 2D lines given by two points each lies on both lines, and is NaN exactly when they are parallel. The intersection of two distinct coplanar non-parallel 3D lines, however their defining points are placed on them, is the point common to both; parallel and collinear
 3D lines without a shared defining point have no reported intersection.''',
 'all pairs of lines, including defining points that coincide with the intersection or lie on the other line',
 'tests use six literal pairs',
 [SEG], [('line_intersect','%s:line_intersect'%SEG),('line_intersect3','%s:line_intersect3'%SEG)])

p('P18','Axis-aligned box measures',
 '''A box constructed from an origin and a nonnegative size reports, on every axis, minimum = origin, maximum = origin + size and midpoint half way between; its ranges pair minimum and maximum per axis, its centre is the midpoint on all
 axes, its floor point is the midpoint on x and z at minimum y. Width, height and depth are the sizes along x, y and z, the volume their product, and the surface area twice the sum of the pairwise products. A negative size or
 non-numeric input is refused with an error.''',
 'all origins and all nonnegative sizes',
 'the repository has no test for boxes',
 ['blmath/geometry/primitives/box.py'], [('Box','blmath/geometry/primitives/box.py:Box')])

p('P19','Generated prisms are closed, correctly placed solids',
 '''A triangular prism on a non-degenerate base has exactly the three base vertices and their translates by the height against the base normal, and its triangles form a closed, consistently oriented surface whose outward orientation encloses
 the volume base area times height. A rectangular prism or cube has exactly the eight corners between its origin and origin + size, all of whose faces are faces of that box. The flattened form lists, for each triangle, the coordinates of the same vertices as the indexed form, and the horizontal plane consists of the two equally oriented halves of a square around the origin in y = 0.''',
 'all base triangles, heights of either sign (a negative one extends to the other side), origins and sizes of either sign',
 'the repository has no test for shapes',
 ['blmath/geometry/shapes.py'], [('create_triangular_prism','blmath/geometry/shapes.py:create_triangular_prism'),('create_rectangular_prism','blmath/geometry/shapes.py:create_rectangular_prism')])

p('P20','Extreme-point searches return a true extreme',
 '''The apex of a nonempty point set (or of a chain) along an axis is one of its points and no other point is further along the axis; it does not depend on the axis's length. The farthest point from a
 given point is one of the candidates, is returned with its own index, and no other candidate is farther away.''',
 'all nonempty point sets of any size, all axes and query points',
 'tests use one set of ten points and one of two',
 ['blmath/geometry/apex.py',PO], [('apex','blmath/geometry/apex.py:apex'),('farthest','blmath/geometry/apex.py:farthest')])

p('P21','Surface normals and barycentric coordinates',
 '''The surface normal of a non-degenerate triangle is perpendicular to its edges, follows the right-hand rule, and has length one when normalised and twice the triangle's area otherwise; a batch is treated triangle by triangle. The barycentric
 coordinates of a point's projection sum to one, and the combination of the triangle's vertices they describe is the orthogonal projection of the point onto the triangle's plane, for single points and batches.''',
 'all non-degenerate triangles, all points, batches of any size',
 'tests use a few literal triangles; barycentric coordinates have no test',
 ['blmath/geometry/surface_normals.py','blmath/geometry/barycentric.py'], [('surface_normal','blmath/geometry/surface_normals.py:surface_normal'),('barycentric_coordinates_of_projection','blmath/geometry/barycentric.py:barycentric_coordinates_of_projection')])

p('P22','Rotations built from directions and Euler angles are rotations',
 '''The rotation built from an up and a look direction that are nonzero and not parallel is orthonormal with determinant one, sends up to the positive y axis, and sends look into the half plane of the y and positive z axes (perpendicular part to positive z); it depends
 only on the directions, and zero or parallel directions are refused with an error. A rotation built from Euler angles is the product of the elementary right-handed rotations about the named axes, the first angle applied first, and so is orthonormal with determinant one, in degrees or
 radians.''',
 'all pairs of directions, all angles and axis orders',
 'tests use axis-aligned directions; Euler angles have few tests',
 [T+'rotation.py'], [('rotation_from_up_and_look',T+'rotation.py:rotation_from_up_and_look'),('euler',T+'rotation.py:euler')])

p('P23','Rotation vectors and rotation matrices convert into each other',
 '''The matrix of a rotation vector is orthonormal with determinant one, leaves the vector fixed, and turns by the vector's length in radians (right-handed); the zero vector gives the identity. The rotation vector of a rotation matrix by an angle strictly
 between 0 and 180 degrees converts back to the same matrix, the identity gives zero, and at 180 degrees the vector still converts back to the same matrix. The derivative
 reported on request with a vector is the derivative of its matrix, and the one reported with a matrix by an angle strictly between 0 and 180 degrees undoes it; requesting it does not change the result. Any other input shape is refused with an error.''',
 'all rotation vectors, all rotation matrices',
 'the module cannot be imported without a working chumpy, so its tests do not run',
 [T+'rodrigues.py'], [('rodrigues',T+'rodrigues.py:rodrigues'),('as_rotation_matrix',T+'rodrigues.py:as_rotation_matrix')])

p('P24','Composite transforms compose in order and invert exactly',
 '''After any sequence of appended scalings, translations, unit conversions, reorientations, rotations and explicit matrices, the composite maps a point to the result of applying the transforms one by one in the order they were appended, and the reverse
 mode undoes it. Restricting to a range applies exactly the transforms in that range, in either mode; an empty composite or range is the identity. Every appended transform is stored with its inverse, appending one returns its
 position, a nonpositive scale factor is refused and leaves the composite unchanged, and neither applying nor querying the composite changes it.''',
 'all sequences of appended transforms of any length, all ranges, all points',
 'tests append at most three transforms with literal parameters, and the ones using rotate do not run',
 [T+'composite.py'], [('matrix_for',T+'composite.py:CompositeTransform.matrix_for'),('append_transform4',T+'composite.py:CompositeTransform.append_transform4')], over=('inputs','histories'))

p('P25','Coordinate manager maps points consistently between named frames',
 '''Points given in one tagged frame (a tag given again denotes the later state) and read in another are the result of applying, in order, exactly the transforms added between the two tags (or undoing them in reverse order when reading an earlier frame); reading back in the original frame returns the
 original points, and going through an intermediate frame changes nothing. Objects carrying vertices are returned as copies with transformed vertices, the object given being left unchanged. Unknown tags, and reading before anything was set, raise an error.''',
 'all histories of transforms and tags, all pairs of tags, all points',
 'tests use one history with three tags',
 [T+'coordinate_manager.py',T+'composite.py'], [('do_transform',T+'coordinate_manager.py:CoordinateManager.do_transform'),('tag_as',T+'coordinate_manager.py:CoordinateManager.tag_as')], over=('inputs','histories'))

p('P26','Rigid alignment returns the least-squares proper rotation',
 '''Rigid alignment of two equally sized 3D point sets returns an orthonormal rotation of determinant one and a translation that maps centroid to centroid, or refuses with an error, and never returns a reflection; when the second set is a rotated and translated copy of a first that spans at least a plane, every point is
 mapped onto its counterpart. No rotation gives a smaller sum of squared distances, whichever way round the points are laid out. Rotation-only alignment does the same without a translation (a single point included), and with scaling allowed multiplies by the ratio of the sets' root-mean-square sizes.''',
 'all point sets, all rigid motions',
 'the repository has no test for rigid alignment',
 [T+'rigid_transform.py'], [('find_rigid_transform',T+'rigid_transform.py:find_rigid_transform'),('find_rigid_rotation',T+'rigid_transform.py:find_rigid_rotation')])

p('P27','Orthogonalisation and change of basis',
 '''Orthogonalising linearly independent vectors returns as many mutually orthogonal nonzero vectors, the k-th differing from the k-th input by a combination of the earlier inputs; orthonormalising additionally scales them to length one (only the
 requested ones when indices are given). The change-of-basis operator of two bases of the same space multiplied by the first basis gives the second, is the identity for equal bases, and bases that are dependent or differ in size are refused with an error.''',
 'all linearly independent lists of vectors, all pairs of bases',
 'tests use two literal matrices per function',
 ['blmath/numerics/linalg/gram_schmidt.py','blmath/numerics/linalg/isomorphism.py'], [('orthogonalize','blmath/numerics/linalg/gram_schmidt.py:orthogonalize'),('isomorphism','blmath/numerics/linalg/isomorphism.py:isomorphism')])

p('P28','Mesh cross sections trace exactly the mesh-plane intersection',
 '''For a triangle mesh with no vertex on the plane, the faces reported as intersecting are exactly those with vertices on both sides. The cross section is a set of chains whose vertices are exactly the crossing points of the crossed mesh edges, each once, and whose segments are exactly the segments in which the plane meets the crossed faces; each
 connected piece of the intersection is one chain, closed when it is a loop and open when it ends at mesh boundaries. A plane missing the mesh gives no chain, and giving a neighborhood selects the one chain closest on average to it.''',
 'all manifold meshes with or without boundary, all planes in general position',
 'tests slice one cube (possibly doubled or with a side removed) by one plane',
 [PL], [('mesh_xsections','%s:Plane.mesh_xsections'%PL),('mesh_intersecting_faces','%s:Plane.mesh_intersecting_faces'%PL)], over=('inputs','programs'))

p('P29','Planar convex hulls',
 '''The hull of a planar curve consists of vertices of the curve, in cyclic order around a convex polygon, such that every vertex of the curve lies inside or on that polygon; it keeps the curve's closedness, and the returned indices, when requested, select exactly the returned vertices. With flattening, the result is
 the hull of the curve projected onto its plane, in the original frame. A supplied normal only selects the projection and does not change which vertices form the hull; curves of at most one vertex are returned unchanged.''',
 'all planar curves of any size and orientation',
 'tests only use curves with at most one vertex',
 ['blmath/geometry/convexify.py',T+'rotation.py'], [('convexify_planar_curve','blmath/geometry/convexify.py:convexify_planar_curve'),('rotate_to_xz_plane',T+'rotation.py:rotate_to_xz_plane')])

p('P30','Block-sparse matrices act as the matrix they were built from',
 '''Whatever rows and columns are declared or detected as sparse or dense, multiplying the block representation by a vector or a matrix, or forming its product with its own transpose on either side, gives what the original matrix gives. Masking (with masks that select something) keeps exactly the entries in the selected rows and columns, and the
 solvers built on it return a vector that solves the system to the stated tolerance for symmetric positive definite systems.''',
 'all matrices, all sparse/dense splits, all vectors',
 'the repository has no test for these modules',
 ['blmath/numerics/linalg/static_block_sparse_matrix.py','blmath/numerics/linalg/sparse_cg.py'], [('StaticBlockSparseMatrix','blmath/numerics/linalg/static_block_sparse_matrix.py:StaticBlockSparseMatrix'),('block_sparse_cg_solve','blmath/numerics/linalg/sparse_cg.py:block_sparse_cg_solve')])

p('P31','Computations never modify their arguments',
 '''No query, constructor or computing function of the library modifies an array, list, polyline, plane, mesh or quantity passed to it (or the object it is called on), whether it returns normally or raises; only the documented mutators (assigning attributes, flipping, partitioning a chain in place, appending transforms, making arrays
 read-only) change their receiver. Hence calling a function twice on the same arguments gives the same result.''',
 'all public functions and methods, all arguments',
 'tests build fresh literals for each call and never look at them afterwards',
 ['blmath/numerics','blmath/geometry','blmath/value.py'], [('copies before in-place operations','throughout')])

p('P32','Differentiable normals: values and derivatives agree',
 '''The differentiable face and vertex normal objects evaluate to the normalised (or scaled) cross products of the face edges, summed over the faces around a vertex for vertex normals, and the derivative matrices they report for the cross product, the row normalisation and the edge differences are the exact
 Jacobians of the values they report, for every mesh with non-degenerate faces, whose vertices all belong to faces with normals that do not cancel.''',
 'all vertex positions, all faces',
 'the module cannot be imported without a working chumpy and has no test',
 ['blmath/optimization/objectives/normals.py'], [('CrossProduct','blmath/optimization/objectives/normals.py:CrossProduct'),('NormalizedNx3','blmath/optimization/objectives/normals.py:NormalizedNx3')])

p('P33','Sparse Cholesky factors reproduce the permuted matrix',
 '''For a symmetric positive definite sparse matrix (in compressed column or row form) the factorisation returns a lower-triangular factor, a permutation matrix and a zero failure flag such that the factor times its transpose equals the matrix permuted symmetrically; a matrix that is not positive definite is flagged.''',
 'all symmetric sparse matrices',
 'one random matrix is tested, and the second test lacks its data file',
 ['blmath/numerics/linalg/lchol.py','blmath/numerics/linalg/cholmod.c'], [('lchol','blmath/numerics/linalg/lchol.py:lchol')])

p('P34','Array helpers reshape without copying and match their matlab counterparts',
 '''The safe reshape returns an array of the requested shape sharing memory with its input or raises (or, in warning mode, warns and returns a reshaped copy), never altering its input's shape; making arrays read-only protects every array given and ignores other items. Row and column views, singleton-expanding elementwise application and
 triplet-form sparse construction give what their matlab counterparts give. Scaling, broadcasting and emptiness tests accept arrays, lists and tuples alike.''',
 'all arrays of any shape and memory layout',
 'the repository has no test for these helpers',
 ['blmath/numerics/numpy_ext.py','blmath/numerics/matlab.py','blmath/numerics/predicates.py'], [('np_reshape_safe','blmath/numerics/numpy_ext.py:np_reshape_safe'),('bsxfun','blmath/numerics/matlab.py:bsxfun')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
