#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when a property changes)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEO = "planegeometry/geometry.py"
INT = "planegeometry/internal.py"
P = []


def p(id, title, statement, text, why, mech, observe, over=("inputs",), technique="", note="", files=(GEO,), state=()):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, mech=mech, observe=observe,
                  over=list(over), technique=technique, note=note, files=list(files), state=list(state)))


ORD = ("coordinates, radii and lengths of ordinary size (about 1e-2 to 1e2), configurations which are either exactly "
       "degenerate (up to rounding) or clearly not (relative gap above about 1e-4)")

p("C01", "Lines: equation, equality, parallelism, perpendicularity and membership",
  "The normal equation of a line (direction and offset) describes exactly the points of the line through its two defining points; "
  "two lines are reported equal, parallel or perpendicular exactly when they are as sets of points, whatever defining points, "
  "orientation or scale are used; and membership honours the extension flags, so that a line includes all its points, a half-line "
  "only those from its origin onwards and a segment only those between its ends.",
  "all lines, half-lines and segments given by two distinct points, all query points; " + ORD,
  "One or two lines are sampled; vertical, horizontal, diagonal lines, lines through the origin, opposite orientations and "
  "other scales are separate code paths in the angle arithmetic.",
  [("Line.direction_offset", GEO), ("Line.is_equal / is_parallel / is_perpendicular", GEO), ("Line.includes", GEO)],
  ["Line.direction_offset", "Line.is_equal", "Line.is_parallel", "Line.is_perpendicular", "Line.includes"],
  note="tolerances 1e-9 relative for values; decisions only judged on exactly degenerate or clearly separated inputs, plus exact integer lattice cases")

p("C02", "Projection, distance, perpendicular and mirror image of a point on a line",
  "The projection of a point on a line is the nearest point of the line, the distance is the length to it, and the mirror image is the point "
  "symmetric to it; mirroring twice gives the point back. The perpendicular through a point is the line orthogonal to the given one which "
  "contains the point, its foot and the requested extensions, for points on the line or off it.",
  "all lines and all points, on the line, near it and far from it; " + ORD,
  "Points on the line and near it are degenerate cases with their own code, and the tests use one point.",
  [("Line.projection / distance / reflection / perpendicular", GEO), ("Reflection.transform", GEO), ("Projection.project", GEO)],
  ["Line.projection", "Line.distance", "Line.reflection", "Line.perpendicular", "Reflection.reflect", "Projection.project"],
  note="oracle: vector projection in plain Python floats")

p("C03", "Intersections of lines, circles and ellipses are complete and correct",
  "The intersection of two lines, a circle and a line, two circles, or an ellipse and a line is exactly the set of their common points: nothing when they do "
  "not meet, one point when tangent, two distinct points when secant (each lying on both curves), and the curve itself or nothing when equal or parallel. The result does not depend on the order "
  "of the arguments, on the position of the defining points, or on which of the equivalent function or method is called.",
  "all pairs of lines (taken as infinite), circles and ellipses in every relative position: apart, tangent outside or inside, secant, nested, concentric, equal, parallel; " + ORD,
  "Tangency, concentricity and special directions are measure-zero cases; a test checks one or two secant positions.",
  [("intersection_line_line", GEO), ("intersection_circle_line", GEO), ("intersection_circle_circle", GEO),
   ("intersection_ellipse_line", GEO), ("circle_line_intersection_, line_line_intersection_", INT)],
  ["intersection_line_line", "intersection_circle_line", "intersection_circle_circle", "intersection_ellipse_line"],
  files=(GEO, INT), note="relative positions are constructed; secant residuals are bounded by a conditioned tolerance")

p("C04", "Circles: membership, power, radical axis and centre, angle, orthogonality",
  "A point belongs to a circle (or to its closed disc) exactly when its distance to the centre equals (is at most) the radius, and its power is the squared distance minus the squared radius. "
  "The radical axis, the radical centre of two circles and that of three circles are the loci of equal powers; the angle between two meeting circles is the angle of their tangents and two circles are orthogonal exactly when that angle is right; "
  "circles are equal exactly when centre and radius are, and the circles built from a diameter or from a centre and a point pass through those points.",
  "all circles and pairs or triples of circles, all points; " + ORD,
  "The quantities are identities over all configurations; tests sample single values.",
  [("Circle.includes / contains / power / radical_center / radical_axis / angle / is_orthogonal / is_equal / as_ellipse", GEO),
   ("radical_center, circleAB, circleOA", GEO)],
  ["Circle.includes", "Circle.contains", "Circle.power", "Circle.radical_axis", "Circle.radical_center", "radical_center", "Circle.angle", "Circle.is_orthogonal", "circleAB", "circleOA"],
  note="also lattice circles judged in exact integer arithmetic")

p("C05", "Hyperbolic lines: the circle orthogonal to a circle through two points",
  "The circle returned for two distinct points inside a reference circle passes through both points and cuts the reference circle at a right angle, and it is a line through both points exactly when the points are aligned with the centre; "
  "the same holds for two points of the reference circle given by angles. When an arc is requested it is the part of that circle inside the reference circle joining the two points (a segment in the aligned case).",
  "all reference circles, all pairs of interior points and all pairs of angles; " + ORD,
  "Aligned points, equal distances, diametral points and the choice of the right arc depend on the position of the points; the tests sample one.",
  [("Circle.orthogonal_through_two_points_in_circle", GEO), ("Circle.orthogonal_through_two_points_on_circle", GEO)],
  ["Circle.orthogonal_through_two_points_in_circle", "Circle.orthogonal_through_two_points_on_circle", "Arc.path"],
  note="the arc is judged by its ends and by points sampled along it")

p("C06", "Arcs: paths and endpoints",
  "The path of an arc consists of the requested number of points, all on the circle, evenly spaced in angle, running counterclockwise from the starting point to the ending point with the angular extent taken modulo a full turn. "
  "The starting and ending points are those at the two given angles, in degrees or radians.",
  "all circles, all pairs of angles distinct modulo a full turn (of any sign and size), all numbers of points",
  "Angles outside one turn, decreasing angles and wrap-around are not sampled.",
  [("Arc.path / starting_point / ending_point", GEO)], ["Arc.path", "Arc.starting_point", "Arc.ending_point"],
  note="the number of points and the spacing are compared with an independent parametrisation")

p("C07", "Mid-circles and inversions swapping or fixing circles",
  "Every mid-circle of two circles is a circle or line whose inversion (or reflection) exchanges them, and all the mid-circles that exist in the given relative position are returned. "
  "The inversion swapping two circles maps each onto the other with a power of the requested sign, and the inversion fixing two or three circles maps each of them onto itself.",
  "all pairs and triples of circles in every relative position for which the operation is documented, congruent circles included; " + ORD,
  "Relative position, congruence and tangency select different formulas; tests use one.",
  [("mid_circles", GEO), ("Inversion.from_swapping_two_circles / from_fixing_two_circles / from_fixing_three_circles", GEO)],
  ["mid_circles", "Inversion.from_swapping_two_circles", "Inversion.from_fixing_two_circles", "Inversion.from_fixing_three_circles"],
  note="images are computed by an independent inversion of generalised circles")

p("C08", "Inversions: points, circles, lines and compositions",
  "Inversion sends a point to the point aligned with it and the pole such that the product of the signed distances to the pole is the power, exchanges the pole and infinity, and is its own inverse. The image of a circle or line is the set of the images of its points: "
  "a line exactly when it passes through the pole, a circle otherwise. The composition of two inversions, in the requested order, acts as one followed by the other.",
  "all poles, powers of both signs, points including the pole and infinity, circles and lines through the pole or not; " + ORD,
  "The case distinction on the pole and the sign of the power multiply; tests check a few.",
  [("Inversion.invert / invert_circle / invert_line / invert_gcircle / compose / on_circle", GEO), ("Line.invert", GEO)],
  ["Inversion.invert", "Inversion.invert_circle", "Inversion.invert_line", "Inversion.invert_gcircle", "Inversion.compose", "Inversion.on_circle", "Line.invert"],
  note="pointwise images against curve images")

p("C09", "Steiner chains close up",
  "A Steiner chain consists of the requested number of circles; each is tangent to the next, the last to the first, all are externally tangent to one inner circle and internally tangent to the given outer circle, and a shift moves the chain along itself.",
  "all outer circles, at least three circles, all inversive parameters of either sign and all shifts; well-conditioned chains",
  "Closure is a relation between all circles of the chain for continuous parameters.",
  [("SteinerChain, SteinerChain_phi0_", GEO)], ["SteinerChain"],
  note="closure, tangency, containment and disjointness are checked on the returned circles; an independent construction gives the expected chain")

p("C10", "Ellipses: membership, equation, shape matrix and parametrisations",
  "A point belongs to an ellipse (or its closed interior) exactly when the quadratic form given by its axes and angle equals (is at most) one, and the reported implicit equation and shape matrix describe that same set. "
  "Paths lie on the ellipse and are evenly spaced in eccentric angle, the point at a given angle is seen from the centre in that direction (counted from the major axis), the eccentric angle of a direction agrees with it, normals are orthogonal to the tangent and point outwards, and diameters and conjugate diameters are those of the ellipse at the given parameter.",
  "all ellipses of moderate axis ratio in any position and orientation, all angles of any sign and size including multiples of a right angle, all points",
  "Rotated, offset ellipses and the quadrant arithmetic of angles are continuous families with special values at multiples of 90 degrees.",
  [("Ellipse.includes / contains / equation / shape_matrix / path / point_from_angle / theta2t / normal / diameter", GEO), ("ellipse_points_", INT)],
  ["Ellipse.includes", "Ellipse.contains", "Ellipse.equation", "Ellipse.shape_matrix", "Ellipse.path", "Ellipse.point_from_angle", "Ellipse.theta2t", "Ellipse.normal", "Ellipse.diameter"],
  files=(GEO, INT), note="oracle: independent quadratic form and parametrisation")

p("C11", "Ellipses from equations, points and matrices; equality of ellipses",
  "An ellipse built from an implicit equation, from five points, or from a centre and matrix is the set of points these data define, and coefficients or points which define no ellipse are rejected with an error. "
  "Two ellipses are reported equal exactly when they are the same set of points, the angle counting modulo 180 degrees and not at all for circles.",
  "all real ellipses of moderate axis ratio, all nonzero scalings of the equation, all quintuples of points clearly on or clearly not on an ellipse; hyperbolas, parabolas, degenerate and empty conics",
  "The extraction of axes and angle has sign and ordering cases (A<C, B=0, negative multiples) which samples do not reach.",
  [("Ellipse.from_equation / equation_from_five_points / from_five_points / from_center_and_matrix / is_equal", GEO)],
  ["Ellipse.from_equation", "Ellipse.from_five_points", "Ellipse.equation_from_five_points", "Ellipse.from_center_and_matrix", "Ellipse.is_equal"],
  note="round trips plus exact integer equations; rejection cases")

p("C12", "Minimum-area enclosing ellipse",
  "The ellipse enclosing a finite set of points contains every point and its area is the smallest possible, whatever the number, order and position of the points (duplicated, collinear in part, or on a common circle); "
  "point sets with fewer than three distinct or only collinear points are rejected. The ellipses through three points (least area) and around four points likewise pass through them and have least area.",
  "all finite point sets of moderate aspect ratio, in any order; convex quadrilaterals of any shape for the four-point case",
  "Optimality is a statement about all ellipses; the tests check one point set.",
  [("Ellipse.LownerJohnEllipse", GEO), ("Ellipse.from_boundary3 / from_boundary4", GEO)],
  ["Ellipse.LownerJohnEllipse", "Ellipse.from_boundary3", "Ellipse.from_boundary4"],
  note="area compared with an independent Khachiyan solver (relative gap 1e-6 or so) and a pencil minimisation for four points")

p("C13", "Triangles: sides, angles, orientation, classification and containment",
  "Side lengths, angles (each opposite its side, summing to a half turn), the flatness, the orientation and the acute classification of a triangle are those of its three vertices, in every order and position. "
  "A point clearly inside is contained and a point clearly outside is not; the angles of a flat triangle are 0 and a half turn.",
  "all triangles in either orientation, exactly flat ones included, and all points off the boundary; " + ORD,
  "Orientation, obtuse angles at each vertex and flat triangles are separate cases.",
  [("Triangle.a / b / c / edges / angleA / angleB / angleC / orientation / flatness / is_acute / contains", GEO)],
  ["Triangle.a", "Triangle.b", "Triangle.c", "Triangle.edges", "Triangle.angleA", "Triangle.angleB", "Triangle.angleC", "Triangle.orientation", "Triangle.is_acute", "Triangle.contains", "Triangle.flatness"],
  note="orientation also in exact integer arithmetic")

p("C14", "Triangles: remarkable circles, points and ellipses",
  "The incircle and the three excircles are tangent to the three side lines at the right places, the circumcircle passes through the vertices, the orthic triangle consists of the feet of the altitudes, the Malfatti circles are tangent to each other and to the sides, "
  "and the Steiner ellipses are the least-area circumellipse through the vertices and the largest inscribed ellipse touching the sides at their midpoints. The equal detour point has equal detours over the three sides; flat triangles have none of these circles.",
  "all triangles of moderate shape, acute and obtuse, in either orientation",
  "Each is a conjunction of tangency relations over all triangles; tests compare a sample value.",
  [("Triangle.incircle / circumcircle / excircles / orthic_triangle / malfatti_circles / equal_detour_point / steiner_ellipse / steiner_inellipse", GEO)],
  ["Triangle.incircle", "Triangle.circumcircle", "Triangle.excircles", "Triangle.orthic_triangle", "Triangle.malfatti_circles", "Triangle.equal_detour_point", "Triangle.steiner_ellipse", "Triangle.steiner_inellipse"],
  note="defining relations are checked on the returned objects")

p("C15", "Affine maps: action, composition, inverse, interpolation",
  "An affine map sends a point, or each row of an array of points, to matrix times point plus vector, and its 3x3 matrix describes the same map. The composition acts as one map followed by the other in the requested order, the inverse undoes the map on both sides, singular maps are rejected by inversion, "
  "and the map through three pairs of points is the affine map sending each source to its target.",
  "all affine maps (invertible, singular, orientation reversing), points and arrays of points, triples of non-collinear sources and non-collinear targets",
  "These are algebraic laws over all maps and orders of composition.",
  [("Affine.transform / compose / inverse / get3x3matrix / from_mapping_three_points", GEO)],
  ["Affine.transform", "Affine.compose", "Affine.inverse", "Affine.get3x3matrix", "Affine.from_mapping_three_points"],
  note="oracle: plain 2x2 arithmetic")

p("C16", "Reflections, projections, rotations, scalings, shears: action and matrices",
  "Each named transformation (rotation, homothety, directional and axial scaling, shear, reflection, orthogonal and oblique projection) moves points as its definition says, fixing its centre, axis or line. "
  "Its 3x3 matrix and its affine form give the same images, and transforming an array of points gives the images of its rows.",
  "all parameters of each transformation (negative factors, any angle, any axis) and all points, single or in arrays",
  "Three independent implementations of each map have to agree everywhere.",
  [("Rotation, Homothety, Scaling, ScalingXY, Shear, Reflection, Projection", GEO)],
  ["Rotation.transform", "Homothety.transform", "Scaling.transform", "ScalingXY.transform", "Shear.transform", "Reflection.transform", "Projection.transform", "*.get3x3matrix", "*.as_affine"],
  note="oracle: definitions in plain Python")

p("C17", "Images of lines, circles and ellipses under affine transformations",
  "The image of a line, circle or ellipse computed by a transformation is the set of the images of its points: lines keep their extension flags, circles become circles under similarities and the right ellipse under directional scalings, and ellipses become the right ellipse under any invertible affine map. "
  "The affine map between two ellipses sends the first onto the second, and rotating or translating a line moves its defining points.",
  "all lines, circles, ellipses of moderate axis ratio and all affine maps, rotations, reflections, homotheties and scalings (negative factors included)",
  "The axes and angles of image ellipses have ordering and quadrant cases.",
  [("Affine.transform_line / transform_ellipse / from_ellipse_to_ellipse", GEO), ("Rotation.rotate_circle / rotate_ellipse / rotate_line", GEO),
   ("Reflection.reflect_circle / reflect_line", GEO), ("Homothety.transform_circle, Scaling.scale_circle", GEO), ("Line.rotate / translate", GEO)],
  ["Affine.transform_line", "Affine.transform_ellipse", "Affine.from_ellipse_to_ellipse", "Rotation.rotate_*", "Reflection.reflect_*", "Homothety.transform_circle", "Scaling.scale_circle"],
  note="image ellipses compared by quadratic form with an independent computation")

p("C18", "Moebius maps: action, composition, inverse, powers and fixed points",
  "A Moebius map sends z to (az+b)/(cz+d), the pole to infinity and infinity to a/c; composition acts as one map followed by the other in the requested order, the inverse undoes the map, and the integer power k is the k-fold iterate (negative k the inverse's). "
  "Real powers form a one-parameter group: they add, multiply consistently with integer powers, and power one is the map itself; fixed points are mapped to themselves, one or two of them as the map is parabolic or not.",
  "all invertible complex matrices up to scaling (elliptic, hyperbolic, loxodromic, parabolic, affine), all finite points, the pole and infinity, all integer and moderate real exponents",
  "Infinity, the pole and the parabolic case are exceptional values; the laws quantify over all maps.",
  [("Mobius.transform / compose / inverse / power / gpower / fixed_points", GEO)],
  ["Mobius.transform", "Mobius.compose", "Mobius.inverse", "Mobius.power", "Mobius.gpower", "Mobius.fixed_points"],
  note="chordal distance on the sphere; matrices compared up to a complex factor")

p("C19", "Moebius interpolation and cross-ratio",
  "The Moebius map through three pairs of points, any of which may be infinity, sends each source to its target, and repeated points are rejected. "
  "The cross-ratio of four distinct points has its usual value and symmetries and is invariant under Moebius maps.",
  "all triples of distinct points of the extended plane and all quadruples of distinct finite points",
  "Infinity can stand in any of six positions.",
  [("Mobius.from_mapping_three_points", GEO), ("cross_ratio", GEO)],
  ["Mobius.from_mapping_three_points", "cross_ratio"], note="chordal distance; conditioned tolerance")

p("C20", "Moebius images of circles and lines",
  "The image of a circle or a line under a Moebius map is the set of the images of its points: a line exactly when the curve passes through the pole, a circle otherwise. "
  "The map between two given circles sends the first onto the second.",
  "all invertible Moebius maps, all circles and lines, through the pole or not, centred at the pole or not",
  "Curves through the pole and circles centred at it are measure-zero cases with their own formulas.",
  [("Mobius.transform_circle / transform_line / from_mapping_one_circle", GEO)],
  ["Mobius.transform_circle", "Mobius.transform_line", "Mobius.from_mapping_one_circle"], note="pointwise images against curve images")

p("C21", "Random points: shape, membership and uniform distribution",
  "Random points on or in a circle, an ellipse or a triangle come as the requested number of rows of two coordinates, each lying on the curve or in the closed figure. "
  "They are uniformly distributed over the disc, the circle, the ellipse's interior, the triangle and its perimeter (and reach every part of an ellipse's curve), and successive draws differ.",
  "all circles, ellipses of moderate axis ratio and triangles, all sample sizes, all states of the random generator",
  "Uniformity is a statement about the distribution; a sample of a few points cannot show it.",
  [("Circle.random_points, Ellipse.random_points, Triangle.random_points", GEO), ("ellipse_points_, runif_*", INT)],
  ["Circle.random_points", "Ellipse.random_points", "Triangle.random_points"], files=(GEO, INT),
  note="chi-square on equal-measure cells, threshold p<1e-9 on fixed seeds")

p("C22", "Queries do not modify their operands and depend only on them",
  "No operation modifies the objects, points, arrays or lists it is given, and displaying an object does not alter it. The result of an operation depends only on the current values of its operands, not on the operations made before nor on their order, "
  "so an object whose attributes have been reassigned answers as a fresh object with these attributes; and equivalent names of an operation give the same result.",
  "all sequences of operations on shared objects, all orders, attribute reassignments in between",
  "Aliasing and hidden state only show in sequences; the tests make one call per object.",
  [("all constructors and methods", GEO), ("properties computed on access (Triangle.a, Mobius.a, ...)", GEO)],
  ["every public method (snapshots of operands before and after)"], over=("histories", "inputs"),
  technique="operand snapshots around every public call and replay of recorded call sessions on fresh clones",
  note="exact comparison of results and operand snapshots")

p("C23", "Invalid arguments are rejected with an error",
  "Arguments which are not points of two real coordinates, real numbers, positive numbers, booleans or objects of the documented class, where the operation checks them, are rejected with a value error rather than producing a result; "
  "so are coincident points for lines and circles, non-integer or non-positive counts, unknown modes, and shear angles outside an open quarter turn on each side.",
  "all checked parameters of all constructors, functions and methods, all kinds of invalid values for their type",
  "The parameters times the kinds of invalid values are some hundreds; the tests check a couple.",
  [("error_if_not_*_", INT), ("isinstance checks at the head of each method", GEO)],
  ["constructors and methods"], files=(GEO, INT), technique="runtime monitor over a table of invalid calls: each has to raise ValueError, and its valid neighbour has to succeed",
  note="table of (call, parameter, required kind), every kind of invalid value")

p("C24", "Unimodular matrices are enumerated completely",
  "For a bound n of at least two, the enumeration of unimodular matrices consists of the identity and of all the integer matrices [[a, b], [c, d]] with determinant one, 1 <= a, b <= n, 0 <= c <= a and 0 <= d <= b, each exactly once. "
  "For the bound one it is the identity alone.",
  "all bounds n >= 1",
  "Completeness for every bound; the tests check one.",
  [("unimodular_matrices", GEO), ("farey_, farey_stack_", INT)], ["unimodular_matrices"], files=(GEO, INT),
  technique="runtime monitor against a brute-force enumeration", note="n up to 60 (thorough: 150)")

p("C25", "Constructions commute with similarities",
  "Moving all the data of a construction (intersections, projections, radical axes, orthogonal circles, mid-circles, inversions, triangle centres and circles, ellipses, enclosing ellipses, predicates) by a translation, rotation, mirror or scaling moves the result by the same similarity, "
  "and predicates keep their value.",
  "all constructions, all data in general position, all similarities of moderate ratio",
  "It relates the results for a whole orbit of inputs; a test fixes one position and scale.",
  [("all geometric constructions", GEO)], ["all geometric constructions"],
  technique="runtime metamorphic monitor: the same call on moved data", note="results compared as sets of points")

p("C26", "Degrees and radians, number and container types are interchangeable",
  "An angle given in degrees or, with the corresponding flag, in radians leads to the same result everywhere an angle is accepted, also when angles differ by full turns. "
  "Points may be given as lists, tuples or arrays, with integer or floating-point coordinates, without any effect on the value of the results.",
  "all operations accepting angles or points, all angles, all container and number types",
  "The unit flag and the container are separate parameters of dozens of operations.",
  [("degrees parameters", GEO), ("is_point_, is_vector_", INT)], ["all operations with angles or points"], over=("inputs", "configurations"), files=(GEO, INT),
  technique="runtime differential monitor: the same call in other units and containers", note="results compared within rounding")

p("C27", "Chains of circle-preserving maps act as their composition",
  "Applying a sequence of inversions, Moebius maps, reflections, rotations, homotheties and translations to a circle or line step by step gives the set of the images of its points, staying a circle or a line throughout; "
  "composing Moebius maps or affine maps in the sequence first, or grouping them otherwise, gives the same images.",
  "all sequences of maps of moderate conditioning, all circles and lines",
  "Errors in kind (line or circle), orientation or order of composition show only after several steps.",
  [("Inversion.*, Mobius.*, Reflection.*, Rotation.*, Homothety.*, Affine.*", GEO)], ["all maps acting on generalised circles"], over=("histories", "inputs"),
  technique="trace monitor: recorded sequences of maps, pointwise images against curve images at each step", note="length 2 to 8")

p("C28", "Inversions and Moebius maps preserve incidence, tangency, angles and symmetry",
  "The images of two circles or lines by an inversion or a Moebius map meet exactly in the images of their common points (a common point at the pole becoming the point at infinity), tangent curves have tangent images or parallel image lines, "
  "and the angle of the curves is that of the images, orthogonality included. Mirror images in a circle or line, mid-circles, the circle through three points, circles orthogonal to a given one, the inversion fixing three circles and chains of tangent circles are carried to the same objects of the images.",
  "all pairs of circles and lines in every relative position, all inversions of either power and all Moebius maps, with the pole apart from the curves, on one of them or at a common point; " + ORD,
  "It relates several operations over all configurations: the unit tests check single images of single curves.",
  [("Inversion.invert*, on_circle, from_fixing_three_circles", GEO), ("Mobius.transform, transform_circle, transform_line", GEO), ("intersection_*, mid_circles, Circle.angle, Circle.is_orthogonal, orthogonal_through_two_points_*", GEO)],
  ["Inversion.invert_circle", "Inversion.invert_line", "Mobius.transform_circle", "Mobius.transform_line", "Inversion.on_circle", "mid_circles", "intersection_circle_circle", "intersection_circle_line", "intersection_line_line", "Circle.angle"],
  technique="runtime metamorphic monitor: figures before and after a map, judged by inversive invariants", note="invariants evaluated in plain Python; the pole is either exactly on a curve or at a relative distance above 0.1")

p("C29", "Affine constructions commute with affine maps",
  "Moving the data of an affine construction by an affine map moves the result by the same map: intersections of lines and of lines with ellipses, the ellipse through five points, the Steiner ellipses, the smallest enclosing ellipse of a cloud and the smallest ellipse through three or four points, "
  "translations, oblique projections, maps given by three points, conjugate diameters; membership, equality and parallelism keep their value, areas are multiplied by the absolute determinant and the orientation by its sign. Conjugating a named transformation by an affine map gives the map which acts accordingly on the images.",
  "all data in general position, all well conditioned affine maps, of both orientations",
  "It relates the results for a whole orbit of inputs; in particular the smallest ellipses and the intersections are compared with those of sheared figures.",
  [("Affine.*", GEO), ("Ellipse.from_five_points, LownerJohnEllipse, from_boundary3, from_boundary4", GEO), ("Triangle.steiner_ellipse, steiner_inellipse, contains, orientation", GEO), ("Projection, ScalingXY, Scaling, Shear, Rotation, Reflection, Homothety", GEO)],
  ["Affine.transform", "Affine.transform_line", "Affine.transform_ellipse", "Affine.compose", "Ellipse.from_five_points", "Ellipse.LownerJohnEllipse", "Ellipse.from_boundary3", "Ellipse.from_boundary4", "Triangle.steiner_ellipse", "intersection_ellipse_line", "Projection.transform"],
  technique="runtime metamorphic monitor: the same call on data moved by an affine map", note="condition number of the map below about 8; tolerance from the measured sensitivity of the result")

p("C30", "Objects keep the data they are given and display it faithfully",
  "The attributes of an object are the data given to its constructor, points being stored as arrays of two floats. Where the class offers it, show displays these values under their names, with the unit of the angles, also after an attribute was reassigned and for objects returned by operations; "
  "the sentence about a line (infinite, half-line and its origin, segment) agrees with the points it includes, flat and almost flat triangles are announced exactly when they are so, orthogonal projections likewise; and str names the attributes with their values.",
  "all objects of all classes, whatever the representation of their data",
  "Every class has its own display code, which the unit tests do not look at.",
  [("*.show, *.__str__, *.__init__", GEO)], ["show and str of all classes", "constructors"], over=("inputs", "histories"),
  technique="runtime monitor: the captured output is parsed and compared with the object", note="numbers up to the printed precision (8 decimals for arrays)")

DONE = __import__("re").findall(r'prop\("(C\d\d)"', "".join(open(os.path.join(HERE, "pgmon/props", f)).read() for f in sorted(os.listdir(os.path.join(HERE, "pgmon/props"))) if f.endswith(".py")))

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                                        "observe_at": q["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
man = {"version": 1,
       "setup_cmd": "bin/setup",
       "checks": [{"property": q["id"], "quick_cmd": "bin/check %s --tier quick" % q["id"],
                   "thorough_cmd": "bin/check %s --tier thorough" % q["id"],
                   "evidence_file": "evidence/%s.json" % q["id"],
                   "technique": q["technique"] or "runtime monitoring: instrumented library under generated workloads, results judged by an independent geometric oracle",
                   "level": "exploration", "level_note": q["note"] or "see DESIGN.md"} for q in P if q["id"] in DONE],
       "not_applicable": [{"property": q["id"], "reason": "check under construction"} for q in P if q["id"] not in DONE],
       "notes": "No hooks in /repo: the harness wraps the public API of the package it imports from /repo's working tree."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
