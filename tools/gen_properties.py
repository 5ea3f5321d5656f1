#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
I = "include/walnut/"
S = "src/walnut/"
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "Big integer ring arithmetic is exact",
  "Adding, subtracting, multiplying, multiply-accumulating, negating, taking the absolute value, incrementing and decrementing arbitrary precision integers always gives the mathematically exact result, whatever the sign and size of the operands, also when an operand is a machine integer or is the same object as the result. No operand is silently truncated and no operation reads or writes outside the number's own storage.",
  ["inputs"], "all pairs of integers of any sign and length, all aliasing patterns of the operands",
  "Tests use a few dozen literals; carries across a particular word boundary, extreme words and aliasing of operands are only reached by chance.",
  [I+"big_int.h", I+"big_int_words.h", I+"big_uint_word.h", I+"big_uint.h", S+"big_int.cpp"],
  [("word-by-word carry propagation", I+"big_int.h Add/Subtract/Multiply/AddMultiply"), ("storage growth and trimming", I+"big_int_words.h")])
p("C02", "Big integer order, equality, sign and hash agree with the mathematical value",
  "Every comparison, equality, zero, negativity and sign query on arbitrary precision integers (against another one or a machine integer, plain or flipped, by value or by absolute value) answers what the mathematical values say. Two integers with the same value have the same hash and the same stored representation regardless of how they were computed.",
  ["inputs", "histories"], "all pairs of integers; all ways of computing a value",
  "Canonical representation must hold after every operation for every value; tests compare a few literals.",
  [I+"big_int.h", I+"big_int_words.h"],
  [("canonical trimming of sign words", I+"big_int.h Trim"), ("word-wise comparison from the top", I+"big_int.h Compare/LessThan")])
p("C03", "Big integer left shift multiplies by a power of two",
  "Shifting an arbitrary precision integer left by any in-range amount gives exactly the value times that power of two, for every sign, and never loses high bits.",
  ["inputs"], "all integers and all shift amounts up to the supported size",
  "Bits that straddle a word boundary depend on value and amount together; tests sample a few pairs.",
  [I+"big_int.h"], [("shift across words with a spill word", I+"big_int.h operator<<")])
p("C04", "Big integer division, remainder and gcd are exact",
  "For every dividend and nonzero divisor, quotient times divisor plus remainder equals the dividend, the remainder is smaller in magnitude than the divisor and has the sign of the dividend. The greatest common divisor of two integers divides both and no larger integer does.",
  ["inputs"], "all dividend/divisor pairs",
  "Wrong quotient estimates and sign fix-ups in long division need rare operand combinations.",
  [I+"big_int.h", I+"big_uint.h", S+"big_int.cpp"], [("long division", I+"big_int.h DivideRemainder"), ("Euclid's algorithm", S+"big_int.cpp")])
p("C05", "Floating point input is converted without error",
  "Converting a finite floating point number or point into the exact representation yields exactly the same real value whenever the grid chosen permits it, and otherwise rounds to the nearest grid point. Decomposing a number into mantissa and exponent loses nothing.",
  ["inputs"], "all finite doubles and all exponents in the supported range",
  "There are 2^64 doubles; tests try a handful and few subnormal or extreme-exponent ones.",
  [I+"double.h", I+"double_point3.h", I+"homo_point3.h", S+"homo_point3.cpp", S+"double_point3.cpp"],
  [("mantissa/exponent decomposition", I+"double.h Decompose"), ("common denominator", S+"homo_point3.cpp FromDoubles")])
p("C06", "Rational numbers behave like the quotients they denote",
  "Comparisons, equality, arithmetic and rounding of rationals depend only on the quotient denoted, never on how numerator and denominator are scaled or on their signs, and give the exact result.",
  ["inputs"], "all numerators and nonzero denominators of either sign",
  "Sign combinations and common factors multiply; tests list some of them with small literals.",
  [I+"rational.h"], [("cross multiplication with sign flip", I+"rational.h")])
p("C07", "Points, equality and order are independent of homogeneous scaling",
  "Two homogeneous points are equal exactly when they denote the same location, and every coordinate comparison, lexicographic order and vector or point conversion depends only on the location, for either sign of the denominator. Reducing or scaling a point, or a 2D projection of it, never moves it.",
  ["inputs"], "all homogeneous coordinates with nonzero denominator of either sign, and all scale factors",
  "Negative denominators arise only from particular plane intersections; tests rarely use them.",
  [I+"homo_point2.h", I+"homo_point3.h", I+"point2.h", I+"point3.h", S+"homo_point3.cpp", S+"point3.cpp"],
  [("cross-multiplied comparison with flip on denominator sign", I+"homo_point3.h"), ("gcd reduction", I+"homo_point3.h Reduce")])
p("C08", "Plane side tests are exact and plane constructions go through their points",
  "A plane or 2D line built from points contains all of them and is oriented by the right hand rule, and classifying any point against it returns exactly the sign of the true signed distance. Flipping, reducing, projecting, translating or intersecting a plane changes or keeps the side of every point as the geometry demands.",
  ["inputs"], "all defining points, all tested points, any scaling and denominator sign",
  "Sign errors appear for particular octants, denominator signs or projections only.",
  [I+"half_space3.h", I+"half_space2.h", S+"half_space3.cpp", S+"half_space2.cpp"],
  [("determinant style predicates", S+"half_space3.cpp"), ("projection onto a coordinate plane", I+"half_space3.h Project2D")])
p("C09", "Line constructions and line-plane intersections are exact",
  "A line through two points, or in two planes, contains both points or lies in both planes, with the documented direction, and its intersection with a plane lies on both the line and the plane. Line equality, coincidence and on-plane queries and projections onto coordinate planes answer exactly what the geometry says regardless of scaling.",
  ["inputs"], "all defining points and planes with arbitrary homogeneous scaling",
  "Degenerate and negative-scale combinations are only sampled.",
  [I+"plucker_line.h", S+"plucker_line.cpp"], [("Plucker coordinate products", I+"plucker_line.h")])
p("C10", "Angular comparisons are consistent orders that match the true angles",
  "Comparing directions by rotation angle, comparing 2D lines without regard to side, and comparing by the rotated coordinate order gives exactly the order of the true angles or coordinates for every input, and is a consistent ordering (antisymmetric and transitive) so sorting by it is well defined.",
  ["inputs"], "all pairs and triples of nonzero vectors",
  "Transitivity is about all triples; tests compare a fixed list of pairs.",
  [I+"vector2.h", I+"vector3.h", I+"half_space2_sideless_compare.h", I+"r_transformation.h", S+"r_transformation.cpp", S+"vector3.cpp"],
  [("half-turn split then twist sign", I+"vector2.h IsRotationLessThan"), ("bivector comparison", S+"r_transformation.cpp")])
p("C11", "Geometric values used as keys form consistent orders",
  "The orderings that the library supplies for planes, lines and points in ordered containers are strict weak orders, and two keys are equivalent under them exactly when they denote the same geometric object. Equal keys also hash equally.",
  ["inputs"], "all pairs and triples of keys, with any scaling",
  "A comparator's transitivity and its agreement with equality quantify over all triples; tests check a few pairs.",
  [I+"half_space3.h", I+"half_space2_sideless_compare.h", I+"homo_point3.h", I+"double_point3.h"],
  [("cross-multiplied lexicographic comparison", I+"half_space3.h HalfSpace3Compare")])
p("C12", "Splitting a convex polygon by a plane loses nothing and separates the sides",
  "Splitting a convex polygon with any plane in its own plane's general or degenerate position gives a negative part entirely on or below the plane and a positive part entirely on or above it, each a valid convex polygon in the original plane with the original orientation, whose vertices are exactly the original vertices of that side plus the exact crossing points. The two parts share the splitting edge and together have the original area, and no part is produced when the polygon has no vertex strictly on that side.",
  ["inputs"], "all convex polygons and all splitting planes, including ones through vertices and edges",
  "Which vertices lie exactly on the plane, and where crossings wrap around the vertex list, gives a case explosion of which tests try a few.",
  [I+"convex_polygon.h", I+"mutable_convex_polygon.h", I+"convex_polygon_split_info.h", S+"convex_polygon_split_info.cpp"],
  [("split index ranges", S+"convex_polygon_split_info.cpp"), ("crossing vertex construction", I+"convex_polygon.h / mutable_convex_polygon.h Split")])
p("C13", "Fast split search agrees with exhaustive classification",
  "For every convex polygon and plane, the ranges of vertices reported below, on and above the plane, and the extreme vertex and opposite-edge searches that use bisection, are exactly the ones obtained by classifying each vertex individually, for every starting vertex and every polygon size.",
  ["inputs"], "all polygons up to the size bound, all planes, all starting vertices",
  "Bisection over a cyclic list has many boundary cases per polygon size; tests pick some.",
  [I+"convex_polygon.h", S+"convex_polygon_split_info.cpp"], [("bisection on a unimodal cyclic sequence", I+"convex_polygon.h GetSplitInfo/GetExtremeVertexBisect/GetPosSideVertex")])
p("C14", "Merging adjacent convex polygons preserves the covered region",
  "Merging two convex polygons succeeds only when they are coplanar with the same orientation, share a whole edge in opposite directions and their union is convex, and then the result is a valid convex polygon with the summed area and the original vertices. A refused merge leaves both polygons unchanged.",
  ["inputs"], "all pairs of convex polygons and shared edge positions",
  "Convexity at both joints and collinear joints combine with index positions; tests cover some.",
  [I+"mutable_convex_polygon.h", I+"convex_polygon.h"], [("joint convexity test and vertex splice", I+"mutable_convex_polygon.h TryMergePolygon")])
p("C15", "Polygon equality, area, projected area and centroid are exact",
  "Area and centroid measures of a convex polygon equal the true values for every polygon in every orientation, independent of the vertex the list starts from and of vertex scaling. Two polygons compare equal exactly when they denote the same cyclic vertex sequence in the same plane.",
  ["inputs"], "all convex polygons up to the size bound and all start vertices",
  "Tests evaluate a few concrete polygons; denominator and sign handling must hold for all.",
  [I+"convex_polygon.h"], [("fan decomposition with common denominators", I+"convex_polygon.h GetProjectedArea/GetCentroid")])
p("C16", "Bounding boxes contain exactly what they should",
  "Containment, border, equality and diagonal queries of a bounding box, and which side of a plane it lies on, answer exactly what the geometry says for every rational box, point and plane. The cross section of a box with a plane is exactly the polygon the plane cuts out of the box, and the walls of a box are exactly its sides, facing outwards.",
  ["inputs"], "all boxes with rational bounds, all points and planes",
  "Which faces a plane cuts is a large case analysis over signs and ties.",
  [I+"aabb.h", S+"aabb.cpp"], [("per-side bounds with common denominator", S+"aabb.cpp"), ("plane-box intersection", S+"aabb.cpp IntersectPlane")])
p("C17", "Bounding information carried with polygons stays right through edits",
  "The bounding box and the extreme vertex indices kept with a polygon always equal those recomputed from its vertices, after construction, splitting, merging and rotation of the vertex list.",
  ["inputs", "histories"], "all polygons and all sequences of split and merge operations up to the bound",
  "Index bookkeeping through splits depends on where extremes fall relative to the cut.",
  [I+"convex_vertex_aabb_tracker.h", I+"aabb_convex_polygon.h"], [("index remapping on split/merge", I+"convex_vertex_aabb_tracker.h")])
p("C18", "Polygon decomposition tiles the input polygon",
  "Decomposing a polygon into convex pieces yields pieces that are each valid and convex, lie in the plane of the input, only use vertices of the input (with their data), and whose borders add up to exactly the border of the input, so that around every point of the plane the pieces cover as often as the polygon winds. The pieces of a polygon that does not cross or touch itself and that is monotone in the coordinate that is swept all have its orientation, so that they tile it without overlap. (Pieces of a polygon that crosses itself, or is not monotone, may overlap with opposite orientation; their sum is still exact.) The same holds for folded polygons of space and their planar parts. The decomposition always terminates.",
  ["inputs"], "all simple polygons, and all self-crossing or folded polygons without three collinear vertices, up to the size bound, in any plane orientation, from any start vertex, including repeated vertices and (for simple ones) collinear vertices",
  "Triangulation order depends on the sign of every triple of vertices; tests list some shapes.",
  [I+"convex_polygon_factory.h", I+"monotone_decomposer.h", I+"monotone_triangulator.h", I+"monotone_range.h", I+"planar_range.h", I+"orienting_monotone_decomposer.h"],
  [("monotone chain stacks", I+"monotone_triangulator.h / monotone_decomposer.h"), ("convex fan merging", I+"convex_polygon_factory.h")])
p("C19", "Boolean filters compute their boolean function and prune soundly",
  "The union, intersection, subtraction, inversion, odd-winding and single-solid filters accept a location exactly when the boolean formula over per-solid insideness holds, for any number of solids and winding numbers. When a filter declares that a subtree cannot change the outcome, no completion of that subtree can change it.",
  ["inputs", "configurations"], "all winding number assignments, all has-borders flags, all nesting of filters up to the bound",
  "Pruning soundness quantifies over all future windings; tests check a few combinations.",
  [I+"boolean_operation_filter.h", I+"bsp_visitor.h", I+"bsp_content_info.h"], [("pair (inside now, may change)", I+"boolean_operation_filter.h")])
p("C20", "BSP partitioning classifies every region correctly",
  "After adding closed solids to a binary space partition and splitting it by any sequence of planes, the winding number a leaf reports for a solid is the winding number of that solid around every point strictly inside the leaf, and every border polygon lies on the correct side of all its ancestors with its coincident and edge bookkeeping right. The fragments of each input polygon across all leaves tile it exactly.",
  ["inputs", "histories"], "all placements of the solids and all splitting plane sequences up to the bound, including coincident faces, edges and vertices",
  "Degenerate contact between split planes, polygon edges and vertices is what the crossing rules are about, and tests enumerate a few.",
  [I+"bsp_node.h", I+"bsp_tree.h", I+"bsp_polygon.h", I+"bsp_edge_info.h", I+"r_transformation.h", I+"bsp_content_info.h"],
  [("push of contents to children with crossing counts", I+"bsp_node.h"), ("minimum perturbation ordering", S+"r_transformation.cpp")])
p("C21", "Boolean operations on solids give the exact result solid",
  "The union, intersection and difference of closed solids computed by traversing the tree are closed, consistently oriented surfaces that enclose exactly the boolean combination of the inputs, for every relative placement including touching faces, edges and vertices. Where two inputs touch with faces of opposite orientation, the two coinciding pieces may both be present, cancelling each other. The exclusive combination keeps the orientation of the input faces; its surface separates inside from outside exactly where the combination does.",
  ["inputs", "configurations"], "all relative translations of the input solids, all supported operations",
  "The placements at which faces, edges or vertices coincide form a measure-zero set that sampling does not hit except where a test author thought of it.",
  [I+"bsp_traverser.h", I+"bsp_visitor.h", I+"bsp_tree.h", I+"bsp_node.h", I+"boolean_operation_filter.h", I+"plane_partitioner.h"],
  [("leaf acceptance by filters", I+"bsp_visitor.h"), ("tree traversal", I+"bsp_traverser.h")])
p("C22", "The partitioning strategy never changes the result",
  "Which planes the traversal chooses to split space, whether by input faces only or also by axis-aligned cuts chosen from event points, never changes the resulting solid. Partitioning by an axis-aligned cut sends every polygon to each side it reaches and to no other.",
  ["inputs", "configurations"], "all placements of the input polygons and all strategy settings",
  "Results must agree for all inputs under two strategies; tests compare a few meshes.",
  [I+"bsp_traverser.h", I+"polygon_event_point.h", I+"m_log_n_estimator.h"], [("event point sweep and cost", I+"polygon_event_point.h"), ("in-place partition", I+"polygon_event_point.h")])
p("C23", "Edge connection pairs every edge with its true neighbour",
  "Connecting the polygons of a closed mesh links every edge to the edge of the face that follows it around that line on the enclosed side, mutually and with opposite directions, and every part of every edge is linked. Meshes that are not closed are reported rather than linked wrongly.",
  ["inputs"], "all angular arrangements of faces around a line and all overlaps of edges along it, up to the bound",
  "Angular sorting of faces around an edge and partial overlaps combine; tests use a few.",
  [I+"edge_line_connector.h", I+"connecting_visitor.h", I+"connected_polygon.h"], [("sweep along the line with angle-ordered active set", I+"edge_line_connector.h")])
p("C24", "Ownership hand-offs never lose, duplicate or leak the owned object",
  "Through any sequence of moving, swapping, lending, returning and destroying ownership handles, the owned object has at most one current holder, every lender becomes the holder again when its borrower ends, and the object stays reachable and unique.",
  ["histories"], "all sequences of operations on a set of handles up to the bound",
  "The property is over operation histories; tests run a few scripted ones.",
  [I+"deed.h"], [("back pointers between lender and borrower", I+"deed.h")])
p("C25", "Value redirection and vertex unification resolve consistently",
  "After any sequence of redirections every value resolves to one representative that is the same for all members of its merged group. Mapping points to indices gives the same index exactly to points that denote the same location.",
  ["histories", "inputs"], "all sequences of redirections up to the bound; all sequences of mapped points",
  "Chains and cycles of redirections depend on order; tests run a few.",
  [I+"redirectable_value.h", I+"vertex_double_point3_mapper.h"], [("path following redirects", I+"redirectable_value.h"), ("hash lookup of converted points", I+"vertex_double_point3_mapper.h")])
p("C26", "Concatenated and adapted ranges visit each element once in order",
  "Iterating a concatenation of ranges visits exactly the elements of each range in order, in both directions where supported, also when some ranges are empty, and iterator equality, distance and adaptors agree with that.",
  ["inputs"], "all numbers and sizes of ranges up to the bound",
  "Position of empty ranges combine; tests try some.",
  [I+"concat_range.h", I+"transform_iterator.h"], [("skipping of empty inner ranges", I+"concat_range.h")])
p("C27", "Mesh centroid and extreme point queries are exact",
  "The centroid of every closed mesh with a non-zero volume is the exact centroid of the enclosed solid, whatever the orientation of the mesh, the shape and start vertex of its faces and the denominators of its vertices (and has denominator zero if the volume is zero). The top-most and farthest point queries return a vertex that no other vertex of the mesh exceeds, and a point with denominator zero for a mesh without vertices.",
  ["inputs"], "all vertex positions of the mesh shapes in the bound",
  "Tests evaluate one or two solids.",
  [I+"mesh.h"], [("signed tetrahedron sums", I+"mesh.h GetCentroid")])
p("C28", "Extruding a polygon gives the closed prism over it",
  "Extruding a polygon along a direction yields valid convex faces that form a closed surface: the polygon covered exactly with its own orientation, its copy moved by the direction covered exactly with the opposite orientation, and for each edge the parallelogram between the edge and its copy. So the surface encloses exactly the swept volume, outward oriented when the polygon faces away from the direction and consistently inward otherwise. No face has a vertex other than those of the polygon and its copy. Folded polygons still give a closed surface.",
  ["inputs"], "all simple polygons up to the size bound and all directions, including those parallel to the polygon's plane or to its edges",
  "The choice of planes and dropped dimensions of the sides depends on the signs of the inputs; tests use one shape.",
  [I+"extrude.h", S+"extrude.cpp"], [("cap reversal and side quad construction", S+"extrude.cpp")])
p("C29", "Planarity repair outputs planar polygons through shared vertices",
  "A fitted face plane is valid and passes through every fixed vertex that was accepted, in any order of adding fixed and free vertices and of asking for its size; a fixed vertex is only rejected if it is off the plane through three accepted fixed ones. After repair every polygon has its vertices exactly on its valid plane (unless the planes that meet at some vertex are linearly dependent, or all vertices of the polygon are collinear), polygons that shared a vertex still share it, each facet is one polygon or split into polygons that together are bounded by its border, and vertices of meshes that are planar already do not move.",
  ["inputs", "histories"], "all positions of a vertex of the meshes, all orders of adding vertices and all start vertices up to the bound, including collinear and repeated ones",
  "The order of adding vertices and caching of a fitted plane interact; tests follow one order.",
  [I+"nudging_plane_builder.h", S+"nudging_plane_builder.cpp", I+"mesh_plane_repairer.h", S+"mesh_plane_repairer.cpp"],
  [("constrained plane fit", S+"nudging_plane_builder.cpp"), ("vertex moved to plane intersection", I+"mesh_plane_repairer.h")])
p("C30", "Determinants, cross products and other vector algebra are exact",
  "Dot and cross products, determinants, scalar triple products, same/opposite direction and parallelism queries, length and dominant-component queries of vectors give the exact algebraic answer, and drop or select coordinates in an orientation preserving way.",
  ["inputs"], "all vectors with arbitrary precision components",
  "Sign and component order errors only show for particular octants.",
  [I+"vector2.h", I+"vector3.h", I+"big_int.h", S+"vector3.cpp", S+"big_int.cpp"], [("component formulas", I+"vector3.h / "+I+"vector2.h"), ("3x3 determinant", S+"big_int.cpp Determinant")])
p("C31", "Mesh exchange with the visualisation toolkit preserves geometry",
  "Converting a mesh to and from the visualisation toolkit's data structures keeps every face, vertex and orientation.",
  ["inputs"], "all meshes", "Tests convert a few meshes.",
  ["vtk_interface"], [("cell and point copying", "vtk_interface")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
