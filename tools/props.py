"""The property list. tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
C = "crates/cglinalg_core/src/"
T = "crates/cglinalg_transform/src/"
N = "crates/cglinalg_numeric/src/lib.rs"
A = "crates/cglinalg_trigonometry/src/lib.rs"
MD = C + "constraint.rs"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, note=note))


DIMNOTE = ("every combination of dimensions of a small range, plus generated larger dimensions and dimensions taken "
           "from the integers of the source, each decided by compiling and running a probe against integer arithmetic")
DIMT = "property-based testing: generated probe programs, compiled and run, against integer arithmetic"
WHYDIM = ("A test instantiates one combination of dimensions at a time; the claim is about every combination and, "
          "just as much, about the ones that must be rejected, which a passing test cannot show.")
prop("P01", "Type-level dimension arithmetic computes the true sum, difference and product",
     "For every pair of dimensions that the library can add, subtract or multiply at compile time, the resulting dimension is exactly the "
     "integer sum, difference or product of the two. Every sum and product of dimensions 1 to 4 and every non-negative difference of them is available, "
     "and no pair is admitted whose result would be negative or not a dimension.",
     ["programs", "inputs"], "all pairs of dimensions", WHYDIM + " The five stable tests name a few of them.",
     [MD], [("dimension addition, subtraction and multiplication traits", MD)], DIMT, DIMNOTE)
prop("P02", "Dimension equality and ordering constraints admit exactly the true ones",
     "The constraint that two dimensions are equal holds for a pair of dimensions if and only if they are the same integer, and its representative is that dimension. "
     "The constraint that one dimension is less than another is never admitted when it is false, and is always admitted when it is true of dimensions up to 4.",
     ["programs", "inputs"], "all pairs of dimensions", WHYDIM,
     [MD], [("dimension equality and comparison traits", MD)], DIMT, DIMNOTE)
prop("P03", "Matrix product shape constraints admit exactly the conformable shapes",
     "The shape constraint for multiplying two matrices holds exactly when the columns of the first equal the rows of the second, and the one for multiplying the transpose "
     "of a matrix by another holds exactly when their row counts agree, for all shapes. Generic code that is given such a constraint may rely on the equality of the inner "
     "dimensions, and code that has the equality satisfies the constraint.",
     ["programs", "inputs"], "all quadruples of dimensions", WHYDIM,
     [MD], [("multiplication and shape constraint traits", MD)], DIMT, DIMNOTE)
prop("P04", "Extending or contracting a dimension changes it by exactly one",
     "The constraint that permits extending a dimension gives exactly the next dimension, and the one that permits contracting gives "
     "exactly the previous one; dimensions 1 to 4 can be extended and contracted and nothing contracts below zero. Generic code that is given such a constraint may rely "
     "on the sum or difference it stands for.",
     ["programs", "inputs"], "all dimensions", WHYDIM,
     [MD], [("expansion and contraction traits", MD)], DIMT, DIMNOTE)

PBT = "property-based testing"
EX = "random and structured generation with shrinking"
prop("P06", "The scalar interface agrees with the underlying number types",
     "For every primitive integer and float type, the library's scalar operations (zero, one, absolute value, sign, copysign, min, max, clamp, rounding, "
     "square root, powers, exponentials, trigonometric and hyperbolic functions, bounds and machine constants, numeric conversions) return what the primitive type's own "
     "operation returns for the same arguments. A conversion to an integer type succeeds exactly when the value, without its fraction, "
     "is in the range of the type, and gives that value; a conversion to a float type gives the nearest float.",
     ["inputs"], "all scalar values, including zeros, extremes, subnormals, infinities and NaN, and all pairs of scalar types",
     "There are no tests of this layer; the value spaces and the pairs of types are large.", [N],
     [("scalar traits and their implementations for the primitive types", N)],
     PBT + ": differential against the primitive types' own operations", EX + " over values with all special classes")
prop("P07", "Angle arithmetic and unit conversion behave as real-number arithmetic",
     "Addition, subtraction, negation, scaling, division and remainder of angles act on the measure, in every ownership and assignment form, and comparisons "
     "order angles by measure. Converting between degrees and radians multiplies by the exact factor, round-trips up to rounding, and "
     "the named turns (full, half, quarter, and so on) are those fractions of 360 degrees or two pi.",
     ["inputs"], "all pairs of angles and scalars, in both units, single and double precision",
     "Tests sample a handful of fixed angles in double precision.", [A], [("Angle implementations of Radians and Degrees", A)],
     PBT + ": reference arithmetic on the measures", EX)
prop("P08", "Trigonometry of angles agrees between units and with the real functions",
     "Sine, cosine, tangent, secant, cosecant, cotangent, their combined forms and their inverses give the real function of the angle, up to rounding, whichever unit the "
     "angle is in. The inverse functions return an angle, in the principal range, whose function is the argument.",
     ["inputs"], "all angles and arguments in both units and both precisions",
     "Tests sample fixed angles.", [A], [("Angle trait's trigonometric methods", A)],
     PBT + ": differential against f64 functions of the measure", EX)
prop("P09", "Normalizing an angle yields the congruent angle in the documented interval",
     "Normalization maps every angle to the unique congruent angle in [0, full turn), and signed normalization into [-half turn, half turn). The "
     "opposite of an angle and the bisector of two angles are the half-turn-shifted angle and the mean angle, reduced in the same way.",
     ["inputs"], "all finite angles, in particular multiples of half turns, their floating point neighbours, tiny negative angles and angles of many turns",
     "Boundary values and rounding at the ends of the interval are not sampled by tests; two defects were found there.", [A],
     [("Angle::normalize, normalize_signed, opposite, bisect", A)],
     PBT + ": invariants (interval, congruence)", EX)

VEC, PNT, MAT, QUA, CPX = C + "vector.rs", C + "point.rs", C + "matrix.rs", C + "quaternion.rs", C + "complex.rs"
prop("P10", "Vector and point arithmetic acts componentwise in every operator form",
     "For vectors and points of every length and scalar type, addition, subtraction, negation, multiplication, division and remainder by a scalar, and componentwise products, "
     "minima, maxima and maps act on each component as the scalar operation does, whether the operands are owned or borrowed, in the assigning forms, and with the "
     "scalar on the left. Point minus point is the vector between them, point plus or minus vector is a point, and no operation changes an operand it is not meant to change.",
     ["inputs", "histories"], "all component values of all scalar types, dimensions 1 to 5, all ownership forms, and sequences of in-place operations",
     "Tests use a few fixed vectors of one or two scalar types and few ownership forms; the operators are macro-generated in many copies.",
     [VEC, PNT], [("operator impls and component maps", VEC), ("operator impls and component maps", PNT)],
     PBT + ": model-based (plain arrays), with operation histories", EX)
prop("P11", "Vector products, interpolation, projection and reflection obey their definitions",
     "The dot product is the sum of products; the three-dimensional cross product is the right-handed perpendicular vector and the triple product its dot product with a third vector; linear "
     "interpolation is the affine combination; projection onto a vector is its component along that vector; and reflection in a plane keeps "
     "length and undoes itself. These hold for every input up to rounding, and exactly on integers.",
     ["inputs"], "all vectors of dimension 1 to 5 (cross: 3) of integer and float scalars, including parallel and axis-aligned ones",
     "Tests sample a few vectors; the definitions are polynomial identities over all inputs.",
     [VEC, PNT], [("dot, cross, triple, lerp, project, reflect", VEC), ("Point::dot", PNT)],
     PBT + ": reference formulas with running error bounds, exact on integers", EX)
prop("P12", "Norms and distances are the true norms, and the distances are metrics",
     "For vectors, points, matrices, quaternions and complex numbers the l1, l2 (Euclidean, Frobenius), squared, max and p norms equal their definitions, and each "
     "distance is the corresponding norm of the difference: zero on equal arguments, symmetric, and satisfying the triangle inequality up to rounding.",
     ["inputs"], "all values, all shapes to 4x4 and lengths to 5, of float scalars, and integer scalars where the norm is defined for them",
     "Metric axioms quantify over pairs and triples of values; tests check a few fixed values.",
     [VEC, PNT, MAT, QUA, CPX, C + "normed.rs"], [("norm and metric types and methods", C + "normed.rs"), ("norm methods", MAT), ("norm methods", VEC)],
     PBT + ": reference norms and metric axioms", EX)
prop("P33", "Scaling, normalizing and the unit-length wrapper keep direction and length",
     "Normalizing a non-zero vector, point, matrix, quaternion or complex number gives a value of norm one with the same direction, rescaling gives the requested norm, the mutating forms do the same in place and report "
     "the previous norm, and the try forms give nothing exactly when the norm is at or below the threshold. A Unit built from a value holds "
     "its normalized value, unwraps to it, and is a value of norm one.",
     ["inputs"], "all non-zero values over many orders of magnitude, thresholds below, at and above the norm, float scalars",
     "The thresholds and the range of magnitudes are not sampled by tests.",
     [C + "normed.rs", C + "unit.rs"], [("Normed trait and its implementations", C + "normed.rs"), ("Unit", C + "unit.rs")],
     PBT + ": invariants and reference values", EX)

prop("P13", "Vectors and points keep their components through every constructor and view",
     "However a vector or point is made (component list, array, tuple, slice, fill, map, single component, named axis), viewed (fields, "
     "indices and ranges, array and slice references, pointers, iterators) or rearranged (swizzles, casts to arrays and tuples), component i is component i: nothing is dropped, "
     "duplicated or exchanged, writes through a view reach exactly the addressed component, and indices out of range are refused.",
     ["inputs", "histories"], "all component values, lengths 1 to 5, all views and swizzles, and sequences of writes by one route read back by another",
     "Tests use a fixed vector per accessor, often with components that cannot tell two positions apart.",
     [VEC, PNT], [("constructors, conversions, swizzles and views", VEC), ("constructors, conversions and views", PNT)],
     PBT + ": model-based (plain arrays), with histories of writes", EX)
prop("P14", "Homogeneous coordinates and extension and contraction are mutually inverse",
     "Extending appends the given component and contracting drops the last one. A vector has homogeneous coordinates ending in zero and a point ending in one; "
     "reading back from homogeneous coordinates gives a vector exactly when the last one is zero and a point exactly when it is not, the point being the components divided by "
     "the last, so that the result does not depend on the scale of the coordinates.",
     ["inputs"], "all component values of every scalar type, dimensions 1 to 3 below the extension",
     "Tests use a few fixed values and no scale factors.",
     [VEC, PNT], [("extend, contract, to_homogeneous, from_homogeneous", VEC), ("extend, contract, to_homogeneous, from_homogeneous", PNT)],
     PBT + ": round trips and reference values", EX)
prop("P15", "Matrix arithmetic and products are those of linear algebra in every form",
     "For all shapes up to 4 by 4, addition, subtraction, negation, scalar multiplication, division and remainder, componentwise operations and interpolation act elementwise; the product of "
     "matrices and of a matrix and a vector, and the products with a transposed factor, are the sums of row by column products. All ownership and assigning forms agree, products "
     "are associative and distributive, and operands are left alone.",
     ["inputs", "histories"], "all matrices of all conformable shapes up to 4x4, integer and float scalars, all ownership forms",
     "The shapes multiply and the operators are macro-generated; tests check a few fixed matrices of a few shapes.",
     [MAT], [("operator impls, products, dot, lerp", MAT)],
     PBT + ": exact integer reference products, running error bounds for reals, ring laws", EX)
prop("P16", "Rearranging a matrix moves exactly the elements it names",
     "Transposition, rows and columns, swaps of rows, columns and elements, diagonals, traces, embedding a smaller square matrix in a larger one and the predicates identity, zero, diagonal and symmetric "
     "act on the element positions they name, for every shape and every pair of positions; swaps and transposition undo themselves, and positions out of range are refused.",
     ["inputs"], "all matrices of all shapes up to 4x4 with distinguishable elements, and all positions",
     "Each position needs elements that differ; tests check some positions of fixed matrices.",
     [MAT], [("transpose, row, column, swap, diagonal, trace, is_* predicates, From impls", MAT)],
     PBT + ": model-based (arrays of rows)", EX)
prop("P17", "Determinants and matrix inverses are exact up to rounding, singularity included",
     "For square matrices of order 1 to 4 the determinant is the signed sum of products, exactly so on small integers: unchanged by transposition, negated by a swap of rows, multiplicative over products. "
     "The inverse exists exactly when the determinant of an integer matrix is non-zero, its product with the matrix on either side is the identity within rounding, and the "
     "fallible, infallible and predicate forms agree.",
     ["inputs"], "all square matrices of order 1 to 4, including singular, triangular, diagonal and permutation matrices",
     "The cofactor formulas have dozens of terms; a wrong sign or index in one shows only where that term is non-zero, and tests use a few matrices.",
     [MAT], [("determinant, inverse, try_inverse, is_invertible", MAT)],
     PBT + ": exact integer determinants, cofactor reference with error bounds", EX)
prop("P18", "Scale, shear, reflection, translation and cross matrices act as named",
     "The matrix built for a translation, uniform or nonuniform scaling, shear (along axes or along any direction in any plane) or reflection in any plane, in linear and affine form, moves every point and vector as "
     "that transformation is defined: translations leave vectors alone, shears fix their plane, reflections fix theirs and undo themselves. The cross product matrix "
     "of a vector times another is their cross product.",
     ["inputs"], "all factors, directions, normals, origins and points in two and three dimensions",
     "Tests use axis-aligned directions and planes, where wrong indices cancel.",
     [MAT], [("from_scale, from_shear, from_reflection, from_affine_*, cross_matrix", MAT)],
     PBT + ": reference transformations with error bounds, invariants", EX)
prop("P35", "Matrices are stored by columns and keep their elements through every view",
     "However a matrix is made (element list, columns, rows, arrays, tuples, fill, map, slices), viewed (fields, indices, columns, array and slice references, pointers) or taken apart, the element in row r and column c is the same element: "
     "storage is by columns, from_rows transposes, writes through a view reach exactly the addressed element, and mapping visits every element once, for element types "
     "of any kind, without ever dropping a value that was not made.",
     ["inputs", "histories"], "all matrices of all sixteen shapes up to 4x4, all element positions, element types with and without destructors",
     "Tests use fixed matrices and types without destructors; a memory error was found there.",
     [MAT], [("constructors, conversions, views and map", MAT)],
     PBT + ": model-based (arrays of columns), drop counting", EX)
ROT, TRA, SCL, SHR, REF = T + "rotation.rs", T + "translation.rs", T + "scale.rs", T + "shear.rs", T + "reflection.rs"
ISO, SIM, TRF, PRJ = T + "isometry.rs", T + "similarity.rs", T + "transform.rs", T + "projection.rs"
prop("P19", "Every rotation constructor turns by the given angle about the given axis",
     "A rotation by an angle about an axis (or in the plane) turns every vector counterclockwise by that angle and leaves the axis alone, whether it is built as a matrix, an affine matrix, a quaternion or a rotation "
     "type, and whichever angle unit is used. A rotation built between two directions takes the first to the second by the shortest turn.",
     ["inputs"], "all angles, axes and pairs of directions, parallel, opposite and nearly parallel ones included, in both units, single and double precision",
     "Tests use right angles and coordinate axes; two defects for directions close together were found and repaired.",
     [MAT, QUA, ROT], [("from_angle, from_axis_angle, from_angle_x/y/z, rotation_between", ROT), ("from_angle*, rotation_between", MAT), ("from_axis_angle, rotation_between", QUA)],
     PBT + ": Rodrigues reference rotation, with error bounds", EX)
prop("P20", "Looking at a target gives an orthonormal frame seen from the eye",
     "Look-to and look-at constructors, left- and right-handed, produce a rotation whose rows are the viewer's axes: the direction goes to the positive (left-handed) or negative (right-handed) third axis and up into the "
     "half plane of the second. Affine and isometric forms also take the eye to the origin, and the inverse constructors undo them. (The affine matrix inverses are a recorded "
     "finding.)",
     ["inputs"], "all eyes, targets, directions and up vectors that are not parallel",
     "Tests use one configuration per function, and some assert a wrong value.",
     [MAT, QUA, ROT, ISO, SIM], [("look_to_*, look_at_*", MAT), ("look_to_*, look_at_*", QUA), ("look_to_*, look_at_*", ROT), ("look_to_*, look_at_*", ISO)],
     PBT + ": reference frame by cross products, round trips through the inverses", EX)
prop("P21", "Projections map their view volume onto the canonical cube and back",
     "Perspective, field-of-view perspective and orthographic projections take the planes of their view volume to the faces of the canonical cube, invert exactly, "
     "and report the planes and fields of view they were built from. Matrix and type forms agree, projecting and unprojecting a point "
     "are inverse, and the homogeneous matrices agree with the projection of points.",
     ["inputs"], "all view volumes, symmetric or not, and all points in front of the eye",
     "Tests use symmetric volumes, where off-centre terms vanish; two defects with off-centre volumes and wide angles were found and repaired.",
     [MAT, PRJ], [("perspective and orthographic projection", PRJ), ("from_perspective*, from_orthographic*", MAT)],
     PBT + ": reference projection formulas, round trips", EX)
EUL = C + "euler.rs"
prop("P22", "Quaternion arithmetic obeys Hamilton's rules in every form",
     "Quaternion sums, differences, products, quotients, dot products, conjugates, norms, inverses and mixed products with scalars on either side equal those of Hamilton's algebra, for all combinations of owned and borrowed operands and of the assigning forms. "
     "Products are associative and distribute, norms multiply, i*i = j*j = k*k = i*j*k = -1, and a quaternion times its inverse on either side is one; the inverse of zero is refused.",
     ["inputs", "histories"], "all quaternions over all scalar types, all operator forms, and sequences of operations",
     "The product has sixteen terms and the operators are macro-generated; a test with a few fixed quaternions sees few of the combinations.",
     [QUA], [("operator impls, dot, conjugate, inverse, norms, units", QUA)],
     PBT + ": exact integer reference products, running error bounds for reals, field laws", EX)
prop("P23", "Quaternions and matrices stand for the same rotations, and slerp between them",
     "A quaternion and the matrix made from it rotate every vector alike, whether or not the quaternion is of unit norm, and going from a rotation matrix to a quaternion and back gives the matrix again, in all four branches of the extraction. "
     "Linear, normalized and spherical interpolation start and end at the given quaternions, stay at unit norm where they promise to, "
     "and spherical interpolation turns at constant speed along the shorter arc.",
     ["inputs"], "all quaternions, rotations and interpolation parameters",
     "Extraction has four branches chosen by the input and interpolation a switch near parallel arguments; tests visit one or two.",
     [QUA, MAT], [("from_matrix, to_matrix3x3, to_matrix4x4, lerp, nlerp, slerp", QUA)],
     PBT + ": reference rotations with error bounds, round trips", EX)
prop("P24", "Quaternion functions agree with the complex functions along their axis",
     "Exponential, logarithm, powers, roots, trigonometric, hyperbolic and inverse functions of a quaternion are the complex functions of its scalar part and the length of its vector part, along the axis of its vector part; polar decomposition rebuilds the quaternion. "
     "The inverse functions and roots undo the functions they invert, real and pure quaternions included. (The inverse hyperbolic tangent of reals beyond one is a recorded finding.)",
     ["inputs"], "all quaternions within range and off the poles, real, pure and nearly real ones included",
     "Tests use one argument per function; wrong branches were found on the real and pure axes and repaired.",
     [QUA], [("exp, ln, powf, sqrt, trigonometric, hyperbolic and inverse functions, polar decomposition", QUA)],
     PBT + ": differential against the C library's complex functions, round trips", EX)
prop("P25", "Complex arithmetic obeys the field laws in every form",
     "Complex sums, differences, products, quotients, conjugates, moduli, inverses and mixed operations with reals on either side equal those of the complex field, for all combinations of owned and borrowed operands and of the assigning forms. "
     "Moduli multiply, a number times its inverse is one, zero has none, and the predicates tell finite numbers, zero, real and imaginary ones apart. (A real minus a complex number is a recorded finding.)",
     ["inputs", "histories"], "all complex numbers over all scalar types, all operator forms, and sequences of operations",
     "The operators are macro-generated per scalar type; tests sample a few and one of them asserts a wrong value.",
     [CPX], [("operator impls, conjugate, modulus, inverse, predicates", CPX)],
     PBT + ": exact integer reference, running error bounds for reals, field laws", EX)
prop("P26", "Complex functions agree with the standard ones, branch cuts included",
     "Polar form, exponential, logarithms to any base, square and cube roots, real, integer and complex powers, trigonometric and hyperbolic functions and their inverses are the principal-valued functions of complex analysis, in the same quadrant conventions. "
     "They undo one another where they should, roots stay accurate for large and small arguments as far as the squared modulus is in range, and at infinities and NaN the trigonometric and hyperbolic functions and their inverses have the standard limits, or are not finite where there is none.",
     ["inputs"], "all complex numbers within range and off the poles, both sides of the branch cuts included",
     "Tests use one argument per function, in one quadrant.",
     [CPX], [("polar form, exp, ln, log, sqrt, cbrt, powers, trigonometric and hyperbolic functions", CPX)],
     PBT + ": differential against the C library's complex functions, round trips", EX)
prop("P27", "Euler angles make the rotation they describe and are recovered from it",
     "The rotation made from roll, yaw and pitch, in either angle unit, as a matrix, affine matrix or rotation, is the product of the rotations about the x, y and z axes by those angles. The angles extracted from any rotation or unit quaternion are in the principal ranges, never NaN, and "
     "make the same rotation again. (Roll and pitch at a yaw of exactly a quarter turn are a recorded finding.)",
     ["inputs"], "all triples of angles, including yaws at and near a quarter turn",
     "Tests use single-axis angles; NaN at a quarter turn was found and repaired.",
     [EUL, ROT], [("Euler angles to and from rotations", EUL), ("from_euler_angles, euler_angles", ROT)],
     PBT + ": product of reference rotations, round trips", EX)
prop("P28", "Rotations form a group acting on vectors and points, with axis and angle",
     "A rotation moves vectors and points as its matrix does, in every operator form; products compose, the identity does nothing, and the inverse is the transpose and undoes the rotation, through any sequence of products and inverses. "
     "The angle, the axis and the quaternion that a rotation reports make the same rotation again, and a rotation made from an angle, an axis and angle, a quaternion or a pair of directions is the one they describe.",
     ["inputs", "histories"], "all rotations of the plane and of space, including no turn, half turns and turns near them, and sequences of group operations",
     "Tests use a few angles about coordinate axes; the angle was NaN for some rotations that differ from them by rounding only.",
     [ROT], [("Rotation and its operators, axis, angle, constructors", ROT)],
     PBT + ": reference rotation matrices, group laws, round trips", EX)
prop("P29", "Translations, scalings, shears and reflections move points as defined, and back",
     "Translations add an offset to points and leave vectors alone; scalings multiply each coordinate; a shear moves points along its direction in proportion to their distance from its plane through its origin; a reflection negates the distance from its plane; in every operator form. "
     "Their inverses undo them, products compose, and their affine matrices move points alike. (Shears of vectors with an origin are a recorded finding.)",
     ["inputs"], "all offsets, factors, directions, planes and origins, in two and three dimensions",
     "Tests use coordinate planes through the origin, where the offset terms vanish.",
     [TRA, SCL, SHR, REF], [("Translation", TRA), ("Scale", SCL), ("Shear", SHR), ("Reflection", REF)],
     PBT + ": exact integer reference and running error bounds, round trips", EX)
prop("P30", "Isometries and similarities are rotation, scaling and translation, composed",
     "An isometry rotates and then translates, a similarity rotates, scales and then translates; vectors are not translated. Products with each other, with rotations, translations and points and in every operator form, and inverses, in any sequence, act as the composition and the inverse of the motions; the parts reported are those of the motion. "
     "The constructors by angle, axis, pair of directions and parts make the motion they describe, and the affine matrix moves points alike.",
     ["inputs", "histories"], "all isometries and similarities of the plane and of space, all pairs of kinds in products, and sequences of operations",
     "There are dozens of product impls, and order mistakes between rotation, scale and offset vanish for the special cases of tests.",
     [ISO, SIM], [("Isometry", ISO), ("Similarity", SIM)],
     PBT + ": reference composition with error bounds, model-based sequences", EX)
prop("P31", "General transformations act as their homogeneous matrix and compose as products",
     "A general transformation moves points and vectors as its homogeneous matrix does, with the division by the last coordinate for points; products with each other and conversions from every other kind of transformation compose the motions, in every operator form. "
     "Its inverse is the inverse matrix and exists exactly when the determinant is not zero, and moving by a chain of transformations equals moving by their product.",
     ["inputs", "histories"], "all homogeneous matrices, affine and projective, singular and regular, and chains of all kinds of transformation",
     "The product of every pair of kinds is a separate impl, and tests use one or two pairs.",
     [TRF, TRA, SCL, SHR, REF, ROT, ISO, SIM], [("Transform and its operators", TRF)],
     PBT + ": exact integer reference, adjugate for inverses, chains of transformations against their links", EX)
prop("P34", "Casting a composite casts every component, or nothing",
     "Casting a vector, point, matrix, quaternion or complex number to another scalar type succeeds exactly when each component can be converted, and then each component of the result, in its place, is the conversion of that component. "
     "Casting to a wider type and back gives the value back.",
     ["inputs"], "all composites over all pairs of scalar types, with a component that cannot be converted at any place",
     "The failing component can be anywhere and the pairs of types are many; tests cast a few values that fit.",
     [VEC, PNT, MAT, QUA, CPX], [("try_cast", VEC), ("try_cast", MAT), ("try_cast", QUA), ("try_cast", CPX), ("try_cast", PNT)],
     PBT + ": reference conversion per component", EX)
prop("P36", "Quaternions and complex numbers keep their components through every view",
     "Constructors, accessors, indices, slices, tuples, arrays, pointers and maps of quaternions, complex numbers and Euler angles see the same components in the documented order, a write through one view is seen by all others and changes nothing else, and reading out of range panics. "
     "Equality and hashing of every container agree with the equality of all their components.",
     ["inputs", "histories"], "all component values, all views, all indices including those out of range, and sequences of writes",
     "There are many views of one storage, some by pointer casts, and tests check one at a time with one value.",
     [QUA, CPX, EUL], [("Index, AsRef, AsMut, From and Into impls", QUA), ("Index, AsRef, AsMut, From and Into impls", CPX), ("EulerAngles", EUL)],
     PBT + ": array model", EX)
prop("P37", "Values print all their components in order, and a failing writer is reported",
     "Printing a vector, point, matrix, quaternion, complex number, angle, Euler angles or transformation names the kind and writes every component, in storage order and with full precision. "
     "When the writer fails after any number of bytes, the failure is returned as an error: nothing panics, and what had been written is the start of the full text.",
     ["inputs", "fault_sequences"], "all values and every point at which the writer can fail",
     "Tests never print into a writer that fails; a panic was found there and repaired.",
     [VEC, PNT, MAT, QUA, CPX, EUL], [("Display impls", VEC), ("Display impls", MAT)],
     PBT + ": reference text, injected writer failures at generated points", EX)
prop("P32", "Approximate comparison compares every component within its tolerance",
     "Two values of any of the library's types (vectors, points, matrices, quaternions, complex numbers, angles, Euler angles, unit wrappers, transformations, projections) are approximately equal, by absolute difference, relative difference or "
     "floating point steps, exactly when each pair of components is, within that component's tolerance, or the one tolerance given for all. The negated and exchanged forms agree, and the differences and tolerances reported for a failed assertion are those of the components.",
     ["inputs"], "all pairs of values, tolerances below, at and above the difference, and the deciding component at every place",
     "All tests of the library rest on these comparisons, and a comparison that overlooks a component makes them pass; one such was found and repaired.",
     [VEC, PNT, MAT, QUA, CPX, EUL, C + "unit.rs", A, ROT, TRA, SCL, SHR, REF, ISO, SIM, TRF, PRJ],
     [("approx_cmp impls", VEC), ("approx_cmp impls", MAT), ("approx_cmp impls", ISO), ("approx_cmp impls", SIM), ("approx_cmp impls", SHR)],
     PBT + ": conjunction of the scalar comparisons of the components", EX)
prop("P38", "Safe use of the containers has no undefined behaviour",
     "Programs that use vectors, points, matrices, quaternions, complex numbers and directions through their constructors, fields, indices, views, conversions between references, pointers, maps, casts, permutations and arithmetic, for any element type "
     "(numbers, references, types for which zero is no value, types that own memory), have no undefined behaviour: they reach only elements of the value they were given, an index out of range panics before anything is touched, "
     "no value is made that its type does not have, nothing is dropped twice or without having been made, also when a closure given to a map panics, and nothing is leaked when none does.",
     ["histories", "programs"], "all sequences of safe calls and of accesses within the pointers' range, over all containers, shapes and element types",
     "The library reinterprets its storage by unsafe casts; undefined behaviour need not show in the result of a test. Three such defects were found and repaired.",
     [VEC, PNT, MAT, QUA, CPX, C + "coordinates.rs", C + "unit.rs"],
     [("as_ptr, AsRef, From and Index impls, map, try_cast", VEC), ("as_ptr, AsRef, From and Index impls, row, from_rows, map, try_cast", MAT), ("AsRef, From and Deref impls", QUA), ("AsRef and From impls", CPX), ("impl_coords_deref", C + "coordinates.rs")],
     PBT + ": generated histories against an array model, executed under the Miri interpreter as the oracle for undefined behaviour", "random histories of up to twelve steps, shrunk by removing steps")
prop("P39", "Every value is laid out in memory as the array of its scalars",
     "A vector, point, matrix (column by column), quaternion (scalar first), complex number, angle, triple of Euler angles, unit wrapper, rotation, translation, scaling or general transformation occupies exactly its scalars, in storage order and with their alignment, for every scalar type and shape, "
     "so a buffer of values is a flat buffer of scalars: scalars read from its memory are the components, scalars written there are seen through every accessor, and a flat buffer read as values gives the values back. Composites of these (isometries, similarities, shears, reflections) occupy a whole number of scalars without padding.",
     ["inputs", "histories"], "all values, shapes and scalar types, buffers of several values, and writes from outside at any place",
     "The README promises that every data type can be sent across FFI boundaries as a fixed-size array; no test looks at the memory of a value.",
     [VEC, PNT, MAT, QUA, CPX, EUL, C + "unit.rs", A, ROT, TRA, SCL, SHR, REF, ISO, SIM, TRF],
     [("representation of Vector", VEC), ("representation of Matrix", MAT), ("representation of Quaternion", QUA), ("representation of Complex", CPX), ("representation of Euler", EUL), ("representation of Unit", C + "unit.rs"), ("representation of Radians and Degrees", A)],
     PBT + ": model-based writes through a flat view of the memory, flat buffer model", EX)
prop("P40", "Computations never allocate memory",
     "No operation of the library that returns takes memory from an allocator, whatever its arguments (zero, huge, infinite and NaN included): constructors, arithmetic in every form, functions of complex numbers and quaternions, norms, inverses, casts, maps, comparisons, printing into a buffer of the caller, "
     "all kinds of transformation and projection. It can be used where there is no allocator.",
     ["inputs"], "all operations of all types, over all scalar types and any arguments",
     "The README promises that the library requires no allocations; no test can see one, and it may be made on a rare path only.",
     [VEC, PNT, MAT, QUA, CPX, EUL, C + "unit.rs", A, N, ROT, TRA, SCL, SHR, REF, ISO, SIM, TRF, PRJ],
     [("operators and methods", VEC), ("operators and methods", MAT), ("functions", QUA), ("functions", CPX), ("transformations", TRF), ("projections", PRJ)],
     PBT + ": generated arguments, a counting allocator as the oracle", EX)
prop("P41", "A result depends on the arguments alone",
     "An operation of the library on given values gives the same result, to the last digit, every time: whatever was computed before it and in whatever order, on whatever thread and whatever other threads compute at the same time, and whether or not the program is built with debug assertions and overflow checks "
     "(where a build with those checks reports no overflow). No hidden state, such as a cache, shows in any result.",
     ["histories", "schedules", "builds"], "all histories of operations of all types, over any arguments, on any number of threads, in builds with and without debug assertions",
     "A test computes each thing once, in one order, on one thread and in one build; a cache, a race or an effect inside an assertion shows in none of them.",
     [VEC, PNT, MAT, QUA, CPX, EUL, C + "unit.rs", A, N, ROT, TRA, SCL, SHR, REF, ISO, SIM, TRF, PRJ],
     [("operators and methods", VEC), ("operators and methods", MAT), ("functions", QUA), ("functions", CPX), ("trigonometry", A), ("transformations", TRF), ("projections", PRJ)],
     PBT + ": generated histories run in several orders, on several threads and in two builds, compared with each other", EX)
prop("P05", "Expressions type-check exactly when their shapes conform",
     "Programs that add, multiply, transpose-multiply, take dot and cross products, extend, contract, transpose, invert or interpolate matrices, vectors and points, or apply a transformation, are accepted by the compiler exactly when the shapes conform, and their value has the shape that linear algebra gives it. "
     "Points and vectors, the two angle units, and different scalar types do not mix: point minus point is a vector, points are not added to points, and degrees are not added to radians.",
     ["programs"], "all expressions over vectors, points, matrices, angles and transformations of dimensions 1 to 4 (rejections: any dimension), owned and borrowed operands",
     "A test that compiles shows one conforming program; that non-conforming ones are rejected cannot be shown by a passing test at all.",
     [MAT, VEC, PNT, MD, A, T + "transform.rs"], [("operator impls and shape constraints", MAT), ("operator impls", VEC), ("operator impls", PNT), ("shape constraint traits", MD)],
     PBT + ": generated programs, decided by the compiler, against a shape-inference model", "random programs of up to four operations and every pair of shapes up to 4, with the smallest failing program kept")
