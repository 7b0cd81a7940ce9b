#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
H = "src/MathUtils/"
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[H+f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

add("C01", "Angle normalisation lands in its documented interval, same direction",
 "For every finite double, normalising an angle returns a value inside the advertised half-open interval ([0,360[, ]-180,180], [0,2*pi[, ]-pi,pi]), endpoints included or excluded exactly as documented, and the returned angle differs from the input by a whole number of turns (up to floating-point rounding of the input's own offset). Angles already inside the interval are left where they are up to rounding, and a sine/cosine request in degrees equals the one for the same angle in radians. A unit name maps to its angle unit, any other name stops the program.",
 ["inputs"], "every finite IEEE double (also tiny negative, huge, exact multiples of a turn, values next to the interval ends)",
 "the endpoints and the rounding near them are isolated single values among 2^64 doubles; the tests sample a handful of round angles",
 ["Angles.h", "Constants.h"],
 [("fmod then wrap", H+"Angles.h:Normalize_*"), ("modulo", H+"Angles.h:modulo2pi/modulo360"), ("trigo with unit", H+"Angles.h:_GetTrigo")])

add("C02", "Unit conversions are exact ratios, mutually inverse, and chain consistently",
 "Converting a speed (m/s, knot, km/h) or a frequency (Hz, rad/s, deg/s, deg/min, period in s, rpm) from any unit to any other multiplies (or, for a period, inverts) by the exact physical ratio, so A->B->A is the identity and A->B->C equals A->C for every value and every unit pair, and converting to the same unit returns the input. The vector versions of degree/radian and knot conversions apply the same ratio to every element, in place or into a copy of the same length, leaving the source of a copy unchanged.",
 ["inputs", "configurations"], "every real value (non-zero where a period is involved), every ordered pair of units, vectors of every length",
 "36 frequency pairs and 9 speed pairs times all values; the tests check a few pairs at one value",
 ["Unit.h", "Constants.h"],
 [("pivot conversion", H+"Unit.h:convert_frequency, convert_velocity_unit"), ("pairwise helpers", H+"Unit.h:KNOT2MS..RADS2DEGM"), ("vector versions", H+"Unit.h:deg2rad, rad2deg, kt2ms")])

add("C03", "2D frame projections are the rotation by the heading and undo each other",
 "Projecting a 2D vector from the local frame onto the North-East frame applies the rotation by the heading angle (given in degrees or radians), projecting back applies the inverse rotation, so the round trip returns the vector and its length never changes, in every variant (in place, into another vector, free function, single-axis component). Transporting a velocity to a point adds the rotation-rate cross product with the rate converted from its unit, a North-East velocity built from speeds is the unit-converted local velocity rotated by the heading, and the infinity norm is the largest absolute component.",
 ["inputs", "configurations"], "all vectors, all angles, both angle units, all frequency and speed units, every overload",
 "the identities must hold for all vectors and angles and for each of the overloads; tests evaluate a few vectors and angles",
 ["Vector2d.h", "Angles.h", "Unit.h"],
 [("rotation", H+"Vector2d.h:ProjectLocalOnNED/ProjectNEDOnLocal"), ("axis components", H+"Vector2d.h:ProjectOn*Axis"), ("transport", H+"Vector2d.h:TransportAtPoint"), ("speed vector", H+"Vector2d.h:GetNEDVelocityVector"), ("norm", H+"Vector2d.h:infNorm")])

add("C04", "Euler ZYX, quaternion and rotation-matrix conversions agree with each other",
 "The rotation matrix of Euler angles (roll, pitch, yaw) equals Rz(yaw)*Ry(pitch)*Rx(roll) and is a proper rotation; the quaternion of Euler angles has unit norm and gives that same matrix; for every unit quaternion the matrix conversion is orthogonal with determinant one; and extracting Euler angles from a quaternion uses the same matrix entries as extracting them from its matrix. Away from gimbal lock, angles -> matrix or quaternion -> angles returns the original triple, and a matrix -> quaternion -> matrix trip returns the matrix.",
 ["inputs"], "all Euler triples, all unit quaternions, all rotation matrices (round trips: pitch strictly inside ]-pi/2, pi/2[, roll and yaw in ]-pi, pi[)",
 "trigonometric identities over a continuum; the tests check a few sampled attitudes",
 ["Geometry.h"],
 [("euler->matrix", H+"Geometry.h:eulerAnglesZYXToRotationMatrix"), ("euler->quaternion", H+"Geometry.h:eulerAnglesZYXToQuaternion"), ("quaternion->matrix", H+"Geometry.h:quaternionToRotationMatrix"), ("to euler", H+"Geometry.h:quaternionToEulerAnglesZYX, rotationMatrixToEulerAnglesZYX"), ("matrix->quaternion", H+"Geometry.h:RotationMatrixToQuaternion")])

add("C05", "1D linear interpolation returns the chord value and honours its range policy",
 "For every strictly increasing abscissa vector and value vector of the same length (two or more), evaluating at x inside the range returns the straight-line value between the two samples that bracket x (so sample values at the nodes), outside the range the plain method terminates with an error, the extrapolating method continues the first or last segment, and the saturating method returns the first or last sample. Evaluating a vector gives the element-wise results in order, the range getters give the first and last abscissa, and initialising an interpolator again with new data behaves as if only the new data had ever been given.",
 ["inputs", "histories"], "all lengths >= 2, all strictly increasing abscissae, all values, all x (inside, at nodes, outside), all three methods, repeated initialisation",
 "number of samples, position of x relative to every node and re-use of the object are unbounded; the tests use one sine table and a few points",
 ["Interp1d.h", "Interp.h"],
 [("segment coefficients", H+"Interp1d.h:Interp1dLinearBase::Initialize"), ("segment search and evaluation", H+"Interp1d.h:Interp1dLinearBase::PrivEval"), ("range policy", H+"Interp1d.h:Interp1dLinear/Extrapolate/Saturate::PrivEval"), ("factory", H+"Interp1d.h:MakeInterp1d")])

add("C06", "2D linear interpolation is bilinear in the cell that contains the point",
 "For every pair of strictly increasing coordinate vectors and row-major data (x slow, y fast), evaluating at a point inside the grid rectangle returns the bilinear blend of the four surrounding data values, in particular the data value itself at every grid node and a continuous value across cell borders; a point outside the rectangle stops with an assertion failure. Evaluating a list of points gives the point-wise results in order, and initialising again with new data behaves as if only the new data had ever been given.",
 ["inputs", "histories"], "all grid sizes >= 2x2 (nx and ny different too), all coordinates, all data, all query points, repeated initialisation",
 "the flattened cell index mixes nx, ny and the two searches; tests use one grid",
 ["Interp2d.h"],
 [("cell coefficients", H+"Interp2d.h:Interp2dLinear::Initialize"), ("cell search and evaluation", H+"Interp2d.h:Interp2dLinear::Eval")])

add("C07", "Named lookup tables keep series apart and answer by name like an interpolator",
 "Adding a series under a new name succeeds, counts one more series and makes queries under that name (scalar, vector, all-series) equal to interpolating exactly that series over the table's abscissae, whatever was added before or after it; adding under a name already present is refused, returns false and leaves the number of series and every stored answer unchanged. Unknown names are rejected with an exception, membership queries tell present from absent names, and a table that was moved (constructed or assigned) answers exactly as its source did and accepts new series with the same interpolation method.",
 ["inputs", "histories"], "all sequences of set/add/query/move operations, all names, all series",
 "needs every history of insertions with equal and different names, and moves in between; the tests add two series once",
 ["LookupTable1D.h", "LookupTable2D.h", "Interp1d.h", "Interp2d.h"],
 [("1D add/eval/move", H+"LookupTable1D.h:AddY, Eval, GetIndex, move operations"), ("2D add/eval", H+"LookupTable2D.h:AddData, Eval, HasSerie")])

add("C08", "Regular-grid interpolation is multilinear inside and clamped outside the grid",
 "For every dimension and grid of strictly increasing coordinates, interpolating at a point inside the grid returns the multilinear blend of the values at the corners of its cell (the stored value at a node), outside it returns the value at the point clamped to the grid box, and with bound checking any point outside the box is rejected with an exception instead. Coordinates that are not strictly increasing are refused with an exception, reading by index returns the stored value, coordinate getters return what was added, and a copy answers as the original and is unaffected by what later happens to the original.",
 ["inputs", "configurations", "histories"], "dimensions 1 to 3, all grid sizes, all coordinates and data, all points inside / on borders / outside in any mix of directions, copies",
 "the mix of below/inside/above per dimension and the corner ordering is exponential; tests use one grid per dimension",
 ["RegularGridInterpolator.h", "thirdparty/linterp.h"],
 [("cell search", H+"thirdparty/linterp.h:find_cell"), ("clamped corner values", H+"thirdparty/linterp.h:get_f_val"), ("recursive blend", H+"thirdparty/linterp.h:linterp_nd_unitcube, interp_vec"), ("facade", H+"RegularGridInterpolator.h:AddCoord, AddVar, Interp, operator=")])

add("C09", "Nearest-node and surrounding-node queries return the right grid nodes",
 "For every grid of increasing coordinates and every point, the nearest-node query returns, per dimension, an index whose coordinate is at minimal distance from the point (first node below the range, last node above it), together with that node's coordinates and stored value, and the data query returns that same value. The surrounding-nodes query returns 2^d nodes, per dimension the lower and upper node of the cell containing the coordinate, in lexicographic order, the first node when the point lies below the range and the last node when above; copies answer identically, the coordinate getters give the stored coordinates and their extremes, and a dimension index out of range is refused.",
 ["inputs", "configurations"], "dimensions 1 to 3, all grid sizes, all coordinates and data, all points including exact nodes, midpoints and outside points",
 "position of the point relative to every node in every dimension; the tests query a few interior points",
 ["RegularGridNearest.h"],
 [("nearest", H+"RegularGridNearest.h:Nearest"), ("surrounding", H+"RegularGridNearest.h:GetSurroundingGridNodes, GetNode")])

add("C10", "Trapezoidal integrals and the convolution built on them equal the trapezoid sum",
 "For every sample vector of two or more points, uniform-step and given-abscissa trapezoidal integration return the sum over consecutive pairs of step times mean value (hence exact for piecewise-linear data, linear in the samples), and the integration object returns that same sum for tabulated data or for a function sampled at equally spaced points over its current bounds, whatever getter/setter calls came before. Asking for the unimplemented Newton-Cotes rule is refused with an error. The convolution product of a kernel with a signal buffer at least as long is the trapezoid sum of kernel times signal, the signal being read forwards or backwards over the kernel length as requested.",
 ["inputs", "histories"], "all lengths >= 2, all samples, abscissae, steps, bounds, integrand functions, sequences of setter/getter calls, both orientations",
 "needs all lengths and all orders of setters and getters (cached result); tests integrate one function once",
 ["Integration1d.h", "Convolution.h"],
 [("free functions", H+"Integration1d.h:Trapz"), ("object with cache", H+"Integration1d.h:Integrate1d"), ("convolution", H+"Convolution.h:NaiveConvolution")])

add("C11", "Triangle quadrature integrates polynomials of degree up to its order",
 "For each order from 1 to 8 and every non-degenerate or degenerate triangle in space, integrating any polynomial of total degree up to the order over the triangle returns the exact surface integral up to the rounding of the tabulated coefficients (relative 1e-12); the result is area times the weighted sum of integrand values at points inside the triangle's plane, whatever the integrand. Orders outside 1..8 are refused when the integrator is built.",
 ["inputs", "configurations"], "orders 1 to 8, all triangles, all integrands (all polynomial coefficients up to the order), scalar and vector-valued integrands",
 "exactness is a statement about every monomial and every triangle; the tests integrate a few functions with loose tolerance, so a perturbed digit in one table entry passes",
 ["Integration2dTriangle.h", "Integration2d.h", "QuadratureTables.h", "Integrand.h"],
 [("tables", H+"Integration2dTriangle.h:constructor"), ("weighted sum", H+"Integration2dTriangle.h:Compute, ComputeOverStandardTriangle"), ("table access", H+"QuadratureTables.h")])

add("C12", "Polynomial and power-series evaluation equals the defining sums",
 "For every coefficient vector, Horner evaluation returns sum a_k x^k and its derivative version returns sum k a_k x^(k-1). For 1D, 2D and 3D power series of every order over closed, half-open and mixed domains, evaluation returns the sum of coefficient times the powers of the coordinates mapped to the unit interval, each partial derivative is the exact derivative of that expression with respect to the physical coordinate (chain factor included), and the variants with one coordinate fixed beforehand or several values returned together equal the direct ones.",
 ["inputs", "configurations"], "all orders (independently per dimension), all coefficients, all domains, all points",
 "equality of sums of unbounded length for every order and for eight domain-kind combinations; tests use one order and sample points on a few classes",
 ["Polynomial.h", "PowerSeries1d.h", "PowerSeries2d.h", "PowerSeries3d.h"],
 [("Horner", H+"Polynomial.h"), ("1D", H+"PowerSeries1d.h"), ("2D", H+"PowerSeries2d.h"), ("3D", H+"PowerSeries3d.h")])

add("C13", "Chebyshev series: coefficients, evaluation, derivatives, power-series conversion",
 "For 1D, 2D and 3D Chebyshev approximations of every order over closed, half-open and mixed domains, the coefficients are the discrete Chebyshev transform of the function sampled at the Chebyshev nodes mapped to the domain, however often they are recomputed; evaluation returns the sum of coefficient times Chebyshev polynomials of the mapped coordinates and each derivative the exact derivative of that sum (chain factor included). Converting to power-series coefficients (order up to 18) yields exactly the monomial coefficients of the same polynomial, so the power series and the Chebyshev series agree everywhere; orders above 18 are refused.",
 ["inputs", "configurations", "histories"], "all orders (independently per dimension), all functions, all domains, all points, repeated computation",
 "sums of unbounded length for every order and domain kind; tests approximate one function at one order with loose tolerance",
 ["ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "BoostFunctions.h"],
 [("1D", H+"ChebyshevSeries1d.h"), ("2D", H+"ChebyshevSeries2d.h"), ("3D", H+"ChebyshevSeries3d.h"), ("conversion coefficient", H+"ChebyshevSeries1d.h:TransformationCoefficient")])

add("C14", "Vector generation and element-wise vector functions match their definitions",
 "For every length, linspace returns num equally spaced values from start to stop with both ends exact, logspace the powers of the base at those exponents, and arange the values start + k*step below stop; element-wise operations (add, add scalar, subtract, multiply, divide, scale, power, negate, sum, real/imaginary part, amplitude, phase) and the signal shapes (sinc, Heaviside, door, Dirac, ramp) return a vector of the input's length whose every element is the defined function of the corresponding inputs. The scalar helpers (sign, saturation, signed square root, closeness, parity) match their definitions for all values.",
 ["inputs"], "all lengths, all element values, all parameters satisfying the asserted preconditions",
 "needs all lengths and all positions relative to the break points; tests have no or few cases for these helpers",
 ["VectorGeneration.h", "StdVector.h", "Functions.h", "Complex.h", "Maths.h", "Check.h"],
 [("generation", H+"VectorGeneration.h"), ("element-wise", H+"StdVector.h"), ("shapes", H+"Functions.h"), ("complex parts", H+"Complex.h"), ("scalars", H+"Maths.h, Check.h")])

add("C15", "Small and dynamic matrix/vector helpers match linear-algebra definitions",
 "For fixed-size and dynamic matrices and vectors: element access, row/column/diagonal extraction, transposition, identity/null initialisation, symmetric completion from a triangle, outer and inner products, diagonal and square matrices from a vector, norms and projected angles return exactly the textbook result for every content, and the symmetry and equality predicates are true for symmetric (equal) matrices and false for matrices that differ by more than Eigen's relative tolerance of 1e-12. A Cholesky request on a non-square or non-symmetric matrix is refused with an exception.",
 ["inputs", "configurations"], "all matrix contents; fixed sizes 3, 6 and dynamic sizes",
 "each identity must hold for every content; the tests look at single matrices and never at a non-symmetric one",
 ["Matrix.h", "Matrix33.h", "Matrix66.h", "VectorN.h", "Vector3d.h", "Vector6d.h"],
 [("dynamic", H+"Matrix.h, VectorN.h"), ("fixed", H+"Matrix33.h, Matrix66.h, Vector3d.h, Vector6d.h")])

add("C16", "Special-function wrappers obey the classical derivative and argument relations",
 "For every order (integer of either sign, or real) and every positive argument - every real argument for the first-kind functions of integer order - the Bessel, modified Bessel, Neumann and Hankel derivative functions equal the classical recurrence in the function values of neighbouring order, the zero-order Struve derivative is 2/pi minus the first-order Struve function, shifted Chebyshev polynomials are Chebyshev polynomials at 2x-1, and the remaining wrappers return the underlying special function of the same order and argument. The rational and continued-fraction approximations (Struve, Ei, E1, exp(-x)Ei) select the piece that covers x, with the piece boundaries and the published coefficients, and are refused outside their domain.",
 ["inputs", "configurations"], "all orders, all arguments of the domain, every piece and both sides of every boundary",
 "identities over a continuum and every order; tests compare few sample points to tabulated values",
 ["BoostFunctions.h"],
 [("derivatives", H+"BoostFunctions.h:*_derivative"), ("approximations", H+"BoostFunctions.h:Struve_*, Ei_approximation, expEi, E1_approximation")])

add("C17", "FFT frequency axis matches the transform length, flags and unit",
 "For every transform length (of at least two samples), sampling frequency and unit, the frequency axis has one entry per returned bin (the full length, or half plus one when half spectrum is on), entry k being k times sampling frequency over length converted to the requested unit, and turning half spectrum or scaling on and off affects only what it names. Forward then inverse transform with scaling on returns the signal.",
 ["inputs", "configurations", "histories"], "all lengths, sampling frequencies, units, flag histories",
 "all lengths (odd and even) and flag histories; tests use one length",
 ["FFT.h", "Unit.h"],
 [("frequency vector", H+"FFT.h:GetFrequencyVector"), ("flags", H+"FFT.h:HalfSpectrumON.. ScalingOFF")])

add("C18", "Matrix decompositions and solvers reproduce their defining equations",
 "For every matrix meeting the precondition (at least as many rows as columns for QR, square and invertible for LU, inverse and the LU/QR linear solvers, symmetric positive definite for Cholesky and its rank-one update), QR and full QR return an orthonormal Q and an upper triangular R of column-count size with A = Q[:, :cols] R, LU a permutation P, unit lower triangular L and upper triangular U with P A = L U, Cholesky (and its update by sigma v v^T, in place or not) a lower triangular L with L L^T equal to the (updated) matrix, and the singular value decomposition orthonormal U and V and non-negative decreasing singular values with A = U S V^T. Linear solvers return X with A X = B for matrix and vector right-hand sides, the least-squares solver satisfies the normal equations, the equality-constrained one meets its constraint with a residual stationary along the allowed directions, Inverse and GetInverse satisfy A X = X A = I, the eigenvalues of a dynamic matrix have the traces of its powers as power sums, and the pseudo-inverse inverts exactly the singular values above the tolerance and zeroes the others. The const versions leave the matrix as it was. This holds for dynamic matrices of every size and, where the class offers them, for the 3x3 and 6x6 classes.",
 ["inputs", "configurations"], "all matrices of all sizes meeting the preconditions, all right-hand sides",
 "all contents and shapes (tall, wide, square, pivoting needed, rank deficient for the pseudo-inverse); the tests decompose a few random matrices",
 ["Matrix.h", "Matrix33.h", "Matrix66.h"],
 [("decompositions", H+"Matrix.h:Get*Decomposition"), ("solvers", H+"Matrix.h:*Solver*"), ("pseudo-inverse", H+"Matrix.h:GetPseudoInverse"), ("fixed sizes", H+"Matrix33.h, "+H+"Matrix66.h")])

add("C19", "Cubic spline interpolation passes through every data point",
 "For every strictly increasing abscissa vector and value vector of the same length (two or more points), the spline of the requested degree (lowered to the number of points less one for short data) returns the given value at every given abscissa (up to rounding), from either vector representation and from copies, and affine data are reproduced between the nodes for every degree.",
 ["inputs", "configurations"], "all lengths, abscissae, values and queries; degrees 1 to 3; both constructors",
 "all data sets; the test uses one",
 ["Spline.h"],
 [("scaling and fit", H+"Spline.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
