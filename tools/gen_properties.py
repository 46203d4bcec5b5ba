#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
        "observe_at": observe or [], "hook_needed": None}})

I = ["inputs"]
prop("C01", "Integer power is exact",
 "For every integer base and every exponent n >= 0, raising a big integer to the power n returns exactly the n-fold product (1 for n = 0). The entry points taking a machine integer, a big integer by value and a big integer by reference all return this same value.",
 I, "every base, every exponent n >= 0, every entry point", "Tests sample 2^3 only; square-and-multiply is a loop over the bits of n, so one sampled exponent exercises one bit pattern of one overload.",
 ["src/bigint.rs"], [("square-and-multiply loops", "src/bigint.rs impl Power<BigInt>, Power<&BigInt>, Power<i32> for BigInt")],
 observe=["BigInt::power"])
prop("C02", "Modular power and modular inverse of integers",
 "For every integer base, exponent n >= 0 and modulus p >= 2, modular power returns the representative in [0, p) of base^n mod p. For every prime p >= 3, the modular inverse of a non-multiple a of p is the value in [0, p) whose product with a is 1 mod p, and a modulus below 2 is rejected with a panic.",
 I, "every base, n >= 0, p >= 2", "Tests use base 3 mod 5 and inverses of 1..4 mod 19: negative or unreduced bases, large exponents and the reduction of the last product are not sampled.",
 ["src/bigint.rs"], [("reduced square-and-multiply, Fermat inverse", "src/bigint.rs impl PowerModulo, impl Inverse")],
 observe=["BigInt::power_modulo", "BigInt::inverse"])
prop("C03", "Power of terms and polynomials",
 "For every n >= 0 the power of a polynomial (by machine integer, big integer by value or by reference, and the square and cube shorthands) is the n-fold product, 1 for n = 0; a negative exponent is rejected with a panic. The power of a term without unknown multiplies every one of its x, y and q exponents by n and raises its coefficient to n; a term carrying an unknown is rejected. The modular power of a polynomial is congruent to the n-fold product with all coefficients in [0, p); the modular power of a term is the same for its coefficient, with its exponents multiplied by n.",
 I, "every polynomial or term, every n >= 0, every modulus p >= 2", "Tests sample exponents 0, 2, 3 on a few polynomials and never call the modular power of a term or of a polynomial with exponent 0.",
 ["src/polynomial.rs", "src/term.rs"], [("square-and-multiply loops", "src/polynomial.rs impl Power, power_modulo, square, cube"), ("term power", "src/term.rs impl Power for Term, power_modulo")],
 observe=["Polynomial::power", "Polynomial::power_modulo", "Term::power", "Term::power_modulo"])
prop("C04", "Extended gcd satisfies Bezout's identity",
 "For every pair of integers (a, b), the extended gcd returns (g, x, y) with a*x + b*y = g, where g divides both a and b (so g is their greatest common divisor up to sign, and non-negative when a and b are); the recursion ends for every input.",
 I, "every pair of integers, including negatives and zero", "Tests check the pairs (8, 11) and (11, 8) only.",
 ["src/bigint.rs"], [("Euclid recursion with coefficient update", "src/bigint.rs extended_gcd")], observe=["extended_gcd"])
prop("C05", "Chinese remainder combines every congruence",
 "For every list of residues with pairwise coprime positive moduli, the combined result has as modulus the product of all the moduli, and its residue is congruent to each given residue modulo its own modulus.",
 I, "every list of (modulus, residue) pairs with coprime moduli, any length and order", "One test with moduli 3, 5, 7; other lengths, orders, negative residues and bigger moduli are not sampled.",
 ["src/bigint.rs"], [("incremental Bezout update", "src/bigint.rs chinese_remainder")], observe=["chinese_remainder"])
prop("C06", "Polynomials never store a zero coefficient",
 "Every public operation that returns or updates a polynomial, given operands without zero coefficients, yields a polynomial that stores no zero coefficient. Hence a polynomial is the zero polynomial exactly when it stores no term, and cancellation such as x - x or (x+1)(x-1) leaves no trace of the vanished terms.",
 I, "every operand pair, every operation of the polynomial interface", "Tests compare printed text, and printing hides zero coefficients; only the cancellations that happen in the sampled inputs are seen at all.",
 ["src/polynomial.rs", "src/term.rs"], [("removal on zero after accumulation, guarded insertion", "src/polynomial.rs operators, Rem, modular_assign, derivative_*, eval_*; src/term.rs Term + Term, to_pol")],
 state=[("terms", "monomial -> non-zero coefficient", "src/polynomial.rs Polynomial.terms")], observe=["Polynomial.terms", "Polynomial::is_zero", "PartialEq"])
prop("C07", "Polynomial ring arithmetic is coefficient-exact",
 "For every pair of operands (polynomial with polynomial, polynomial with term, term with polynomial, term with term, by value or by reference), addition, subtraction, negation and multiplication give, at every monomial, exactly the coefficient that ring arithmetic prescribes. The in-place forms (+=, -=, *=) leave exactly the value of the corresponding binary operator in the left operand.",
 I, "every pair of operands and every by-value/by-reference overload", "About 40 overloads exist; tests call a handful with operands that mostly share or mostly do not share monomials.",
 ["src/polynomial.rs", "src/term.rs"], [("merge loops over the coefficient maps", "src/polynomial.rs impl_op_ex! blocks; src/term.rs impl_op_ex! blocks")], observe=["+", "-", "*", "+=", "-=", "*="])
prop("C08", "Term building and term arithmetic keep every component",
 "A term built by the builder has exactly the coefficient, x, y and q exponents and unknown given to it (1, zero exponents and no unknown by default), and converting it to a polynomial gives that single term, or zero for a zero coefficient. Multiplying terms multiplies coefficients, adds each of the three exponents and keeps whichever unknown is present, panicking when both have one; dividing subtracts each exponent, floor-divides the coefficients, keeps the dividend's unknown and panics for a divisor with unknown; negation changes only the coefficient's sign.",
 I, "every pair of terms, every combination of exponents and unknowns", "Tests set only one or two of the five components of a term at a time.",
 ["src/term.rs", "src/term_builder.rs"], [("component-wise construction", "src/term.rs impl_op_ex! blocks, to_pol, from; src/term_builder.rs build and setters")], observe=["TermBuilder", "Term * Term", "Term / Term", "-Term", "Term::to_pol"])
prop("C09", "Division of a polynomial by a single term",
 "Dividing a polynomial by a one-term polynomial or by a term divides every term of the dividend by that term, losing none of the non-zero quotients, and the in-place form gives the same value. A zero divisor or a divisor of two or more terms is rejected with a panic.",
 I, "every dividend, every one-term divisor, every overload", "One test divides two terms by one monomial; multi-term and zero divisors are never tried.",
 ["src/polynomial.rs"], [("term-wise quotient", "src/polynomial.rs / and /= blocks")], observe=["Polynomial / Polynomial", "Polynomial / Term", "Term / Polynomial", "/="])
prop("C10", "Monomial order is total, lexicographic and consistent",
 "Monomials are totally ordered by x exponent, then y exponent, then q exponent, then unknown, where no unknown precedes any unknown and unknowns compare by first then second index; two monomials compare equal exactly when they are equal. Terms order by their monomial first and compare equal exactly when they are equal, and the leading term of a polynomial is its greatest monomial with its coefficient (the zero term for the zero polynomial).",
 I, "every pair of monomials, terms, unknowns", "The coefficient map's lookups, truncation and leading terms rest on this order; tests reach it only through printed output of few polynomials.",
 ["src/term.rs", "src/subscripted_variable.rs", "src/polynomial.rs"], [("Ord/PartialOrd/PartialEq impls", "src/term.rs impl Ord for Monomial/Term; src/subscripted_variable.rs impl Ord/PartialEq"), ("leading term", "src/polynomial.rs highest_term_x")], observe=["cmp", "partial_cmp", "==", "highest_term_x"])
prop("C11", "Coefficient reduction modulo an integer",
 "For every polynomial and modulus p >= 1, the remainder operators and the in-place reduction keep each monomial with its coefficient replaced by the representative in [0, p), and drop exactly the monomials whose coefficient is divisible by p. The in-place form and the remainder operators (by machine integer or big integer) agree; reducing a single term changes only its coefficient, and a zero modulus is rejected with a panic.",
 I, "every polynomial or term, every modulus >= 1", "Tests reduce one two-term polynomial with positive coefficients.",
 ["src/polynomial.rs", "src/term.rs"], [("mod_floor per coefficient and removal of zeros", "src/polynomial.rs impl Rem, modular_assign; src/term.rs modulo, modular_assign")], observe=["%", "modular_assign", "Term::modulo"])
prop("C12", "Evaluation and substitution are exact",
 "Evaluating a polynomial at integers x, at y, or at both gives the sum over all its terms of coefficient times powers of the value, and partial evaluation keeps the other exponents and the unknown of every term. Substituting a polynomial for x or for y in a polynomial, term or monomial with non-negative exponents gives the ring-theoretic substitution, with all remaining components kept.",
 I, "every polynomial, every evaluation point, every substituted polynomial", "Tests substitute three two-term polynomials; evaluation at values is tested only through curves with small a, b.",
 ["src/polynomial.rs", "src/term.rs"], [("term-wise evaluation sums", "src/polynomial.rs eval_*; src/term.rs eval_*")], observe=["eval_x", "eval_y", "eval_xy", "eval_x_polynomial", "eval_y_polynomial"])
prop("C13", "Formal derivatives",
 "For every polynomial with non-negative exponents, the derivative by x (by y) multiplies each term's coefficient by its x (y) exponent, lowers that exponent by one, keeps every other component, and drops exactly the terms whose exponent is zero; a negative exponent is rejected with a panic. This holds for a single term and for a whole polynomial.",
 I, "every polynomial and term", "One test differentiates one polynomial whose terms all contain x and y, so constants and mixed cases are not reached.",
 ["src/polynomial.rs", "src/term.rs"], [("term-wise derivative", "src/term.rs derivative_x/derivative_y; src/polynomial.rs derivative_x/derivative_y")], observe=["derivative_x", "derivative_y"])
prop("C14", "Exponent maps",
 "The Frobenius map multiplies x and y exponents by n and keeps q, the unknown and the coefficient; the y-power and q-power maps multiply only the y, respectively q, exponent. On a polynomial each map is applied to every term and the images are added up, so no term is lost even when two land on one monomial.",
 I, "every polynomial and term, every n", "No test calls the Frobenius or y-power map directly; the q-power map is reached with n = p only.",
 ["src/polynomial.rs", "src/term.rs"], [("term-wise maps", "src/term.rs to_frob, to_y_power, to_q_power; src/polynomial.rs same names")], observe=["to_frob", "to_y_power", "to_q_power"])
prop("C15", "Truncation and coefficient extraction",
 "Omitting high orders of q removes exactly the terms whose q exponent exceeds the given order, whatever their unknown; extracting the coefficient of q^k returns exactly the terms with q exponent k with q removed and unknowns kept; extracting an unknown's coefficient returns the coefficient of exactly that unknown (or of the constant term when no unknown is asked for), and zero when absent. These operations, and the degree in x, panic on a polynomial containing a variable they do not allow, and the presence tests for x, y and q are true exactly when some term has a non-zero exponent of that variable.",
 I, "every polynomial in q and unknowns, every order/power/unknown", "Tests reach them only through the modular polynomial pipeline for p = 2, 3, 5.",
 ["src/polynomial.rs", "src/term.rs"], [("split_off at a boundary monomial; filtered copies", "src/polynomial.rs omit_high_order_q, to_q_power_coef, to_variable_coef, degree_x, has_*, to_scalar")], observe=["omit_high_order_q", "to_q_power_coef", "to_variable_coef", "degree_x", "has_x", "has_y", "has_q"])
prop("C16", "Reduction by the curve equation",
 "For every polynomial with non-negative y exponents and every curve (a, b), reduction returns a polynomial congruent to it modulo y^2 - (x^3 + a x + b) in which every y exponent is 0 or 1, with all other components of each term kept. The modular form does the same modulo q, with all coefficients in [0, q).",
 I, "every polynomial, every a, b, every modulus", "Tests reduce x y^3 with one (a, b), plus sums that cancel.",
 ["src/polynomial.rs"], [("replace y^(2k) by (x^3+ax+b)^k", "src/polynomial.rs reduction, reduction_modular")], observe=["reduction", "reduction_modular"])
prop("C17", "Polynomial remainder, gcd and monic form modulo p",
 "For a prime p >= 3 and a divisor in x only that is non-zero mod p, the remainder is congruent to the dividend modulo the divisor and p, has coefficients in [0, p), and is zero or of smaller x degree than the divisor; the computation stops for every such input, including constant divisors. The monic form divides by the leading coefficient mod p; the gcd follows Euclid's algorithm down to a zero remainder and is returned monic; the coprimality test is true exactly when that gcd is the constant 1.",
 I, "every dividend and divisor, every prime p >= 3", "One sampled division and two gcds with non-trivial gcd; constant divisors, coprime inputs and unreduced leading coefficients are not sampled.",
 ["src/polynomial.rs"], [("leading-term elimination loop, Euclid recursion", "src/polynomial.rs polynomial_modular, gcd, to_monic, is_gcd_one")], observe=["polynomial_modular", "gcd", "to_monic", "is_gcd_one"])
prop("C18", "Text form shows every component",
 "The text of a term shows its sign, its coefficient (left out when it is plus or minus one unless the term is a constant), then x, y and q with their exponents (left out when 1), then the unknown, separated by single spaces, for every combination of coefficient class and exponents. The text of a polynomial lists the texts of all its terms in descending monomial order, joins positive ones with a plus sign, and is 0 for the zero polynomial; a point prints as O or as its coordinates, and an unknown as c_i_j.",
 I, "every combination of coefficient class (1, -1, other positive, other negative) and zero/one/other exponents", "Three near-identical formatting branches with 3*3*3*2 cases each; tests see a fraction.",
 ["src/term.rs", "src/polynomial.rs", "src/elliptic_curve.rs", "src/subscripted_variable.rs"], [("Display impls", "src/term.rs, src/polynomial.rs, src/elliptic_curve.rs, src/subscripted_variable.rs")], observe=["Display"])
prop("C19", "Point addition is the chord-and-tangent law",
 "For every curve y^2 = x^3 + a x + b over a prime field with p >= 3 and every two points on it (in any representative modulo p), addition returns: the other operand when one is the point at infinity; the point at infinity for opposite points, including a point with y = 0 doubled; otherwise the chord or tangent point, with coordinates in [0, p). An operand off the curve is rejected with a panic.",
 I, "every curve, every pair of points, every representative", "Tests add points of a few small curves by repeated addition; they never add infinity on the right of an affine point, unreduced representatives, or check coordinates of sums on general curves.",
 ["src/elliptic_curve.rs"], [("case split and slope formulas", "src/elliptic_curve.rs EllipticCurve::plus, canonicalize")], observe=["EllipticCurve::plus"])
prop("C20", "Scalar multiplication",
 "For every point P on the curve and every integer n, scalar multiplication returns n*P in the group: the point at infinity for n = 0, P for n = 1, the n-fold sum for n > 1, and the negative of |n|*P for n < 0.",
 I, "every curve, point and integer n", "Tests multiply by 1, 2, 3 and by a few small orders; zero, negative and most bit patterns are not sampled.",
 ["src/elliptic_curve.rs"], [("double-and-add loop", "src/elliptic_curve.rs multiply_scalar")], observe=["EllipticCurve::multiply_scalar"])
prop("C21", "Curve membership, negation and canonical points",
 "A point is reported on the curve exactly when it is the point at infinity or y^2 = x^3 + a x + b mod p, for every representative of its coordinates. Negation keeps x and z and returns the representative of -y in [0, p), leaving infinity unchanged; canonicalization reduces every coordinate into [0, p); a point is at infinity exactly when its z is 0, which the constructor of infinity guarantees.",
 I, "every curve and every point representative", "Tests check membership of one secp256k1 point and never a point off the curve, an unreduced one or the negative of infinity.",
 ["src/elliptic_curve.rs"], [("membership predicate and normalisation", "src/elliptic_curve.rs is_on_curve, negate, canonicalize, ECPoint")], observe=["is_on_curve", "negate", "canonicalize", "is_infinity", "infinity"])
prop("C22", "Point enumeration is complete and free of duplicates",
 "Constructing a curve over a prime p enumerates, for every x in [0, p), every y in [0, p) with y^2 = x^3 + a x + b mod p exactly once, and the point at infinity exactly once; the cardinality is the number of these points, and the returned list is this enumeration. Enumerating again gives the same list, and a modulus that is below 2 or not prime is rejected with a panic.",
 I, "every prime p and every a, b", "Tests list the points of one curve over F_5 and the cardinality of a few more.",
 ["src/elliptic_curve.rs"], [("exhaustive search over x and y", "src/elliptic_curve.rs create_points, new, points, cardinality")], state=[("points", "the rational points", "src/elliptic_curve.rs EllipticCurve.points")], observe=["EllipticCurve::new", "points", "cardinality"])
prop("C23", "Point order and division points",
 "The order of a point is the least n >= 1 with n*P equal to the point at infinity (1 for infinity itself). The division points of order n are exactly the enumerated points P with n*P = infinity, each once, in enumeration order.",
 I, "every curve, point and order", "Tests list orders over F_5 and division points of two curves for small n.",
 ["src/elliptic_curve.rs"], [("repeated addition; filter by scalar multiple", "src/elliptic_curve.rs point_order, division_points")], observe=["point_order", "division_points"])
prop("C24", "Isogeny codomain follows Velu's formulas",
 "The isogeny of a given order maps to the curve with a' = a - 5v and b' = b - 7w modulo the same p, where v and w are Velu's sums over all non-trivial rational division points of that order, so that the codomain is isogenous to (has as many points as) the domain.",
 I, "every curve and every order", "The tests only print isogenous curves (marked TODO) and assert nothing about them.",
 ["src/elliptic_curve.rs"], [("Velu accumulation over the kernel", "src/elliptic_curve.rs isogeny")], observe=["EllipticCurve::isogeny"])
prop("C25", "Curve construction and j-invariant",
 "Both constructors store the given a, b and p unchanged together with the right-hand side x^3 + a x + b, the raw one without enumerating points; the j-invariant of a non-singular curve over a prime p >= 3 is 1728 * 4a^3 / (4a^3 + 27b^2) mod p, in [0, p). The predefined secp256k1 curve is y^2 = x^3 + 7 over 2^256 - 2^32 - 977 with the standard generator.",
 I, "every a, b, p", "Tests check j for a handful of curves with a = 1.",
 ["src/elliptic_curve.rs", "src/secp256k1.rs"], [("constructors and closed formula", "src/elliptic_curve.rs new, new_raw, j_invariant; src/secp256k1.rs new")], observe=["EllipticCurve::new", "new_raw", "j_invariant", "Secp256k1::new"])
prop("C26", "Division polynomials",
 "For all integers a, b and every n >= 0, psi_n is the n-th division polynomial of y^2 = x^3 + a x + b: the standard values for n = 0..4 and the standard doubling recurrences above, reduced by the curve equation. For n >= 1, phi_n and omega_n are the reduced standard combinations x psi_n^2 - psi_(n+1) psi_(n-1) and (psi_(n+2) psi_(n-1)^2 - psi_(n-2) psi_(n+1)^2) / (4y), with omega_1 = y; a negative n (n < 1 for phi and omega) is rejected with a panic.",
 I, "every a, b and n", "Tests only use a = b = 1, where swapped parameters and wrong powers of a or b are invisible, and n <= 5.",
 ["src/division_polynomial.rs"], [("base cases and recurrences", "src/division_polynomial.rs psi, phi, omega")], observe=["psi", "phi", "omega"])
prop("C27", "Modular-form q-series",
 "For every order N >= 0: the divisor sum is the sum of d^k over all positive divisors d of n (0 for negative n or k); the Eisenstein series is 1 + 240 sum sigma_3(n) q^n for n = 1..N; the discriminant product is prod (1-q^n)^24 over n = 1..N truncated after q^N; its inverse is sum (1-D)^k over k = 0..N truncated after q^N; and q*j is the truncated product of that inverse and the cube of the Eisenstein series. The truncated power multiplies n factors and truncates after the given order each time.",
 I, "every order N >= 0, every n, k", "Tests compare the first six coefficients.",
 ["src/divisor.rs", "src/eisenstein.rs", "src/delta.rs", "src/j_invariant.rs", "src/polynomial.rs"], [("bounded sums and products", "sigma_divisor, eisenstein4, delta1, delta1_inverse, j_invariant1, power_omit_high_order_q")], observe=["sigma_divisor", "eisenstein4", "delta1", "delta1_inverse", "j_invariant1", "power_omit_high_order_q"])
prop("C28", "Series are computed to sufficient precision",
 "The j-invariant series of order N is exact in every coefficient from q^-1 up to and including q^N, for every N >= 0. For every prime p, the modular equation's q-expansion is exact in every coefficient from q^(-p^2-p) up to q^0, and the list of equations contains exactly these coefficients, one per power, in ascending order.",
 I, "every order N and every prime p", "Tests check p = 2, 3, 5 and N up to 6, where a loss of precision for larger p does not show.",
 ["src/j_invariant.rs", "src/modular_polynomial.rs", "src/delta.rs", "src/eisenstein.rs"], [("order bookkeeping", "j_invariant, subscripted_variable_modular_polynomial_q, subscripted_variable_modular_polynomial_list")], observe=["j_invariant", "subscripted_variable_modular_polynomial_q", "subscripted_variable_modular_polynomial_list"])
prop("C29", "Modular polynomial ansatz and assembly",
 "For every prime p the ansatz is x^(p+1) + y^(p+1) plus, for all 0 <= i <= j <= p, the unknown c_i_j times (x^i y^j + x^j y^i), or times x^i y^i when i = j. The modular polynomial is this same expression with every unknown replaced by the negated solution of the linear system for that unknown, so it is symmetric in x and y; p below 2 or not prime is rejected with a panic.",
 I, "every prime p", "Tests cover p = 2, 3, 5.",
 ["src/modular_polynomial.rs"], [("ansatz loops and assembly loop", "subscripted_variable_modular_polynomial, modular_polynomial")], observe=["subscripted_variable_modular_polynomial", "modular_polynomial"])
prop("C30", "Numbering of unknowns is a bijection",
 "For every prime p the unknowns c_i_j with 0 <= i <= j <= p are numbered without gaps or duplicates from 0 to count-1, where count = (p+1)(p+2)/2; the map from index to unknown and the map from unknown to index are inverse to each other. An index at or above the count and an unknown outside the range are rejected with a panic, the empty unknown has no index, and a p that is below 2 or not prime is rejected.",
 I, "every prime p, every index, every unknown", "One test for p = 3 checks the ten indices one way and a single unknown the other way.",
 ["src/subscripted_variable.rs"], [("three sibling enumerations", "SubscriptedVariableConverter::count, index_from_variable, variable_from_index")], observe=["count", "index_from_variable", "variable_from_index"])
prop("C31", "Linear solver row operations keep the solution set",
 "For every consistent integer system with at least as many equations as unknowns, full column rank and an integer solution, the solver returns that solution in the last column, one row per unknown in order: elimination only swaps rows and adds multiples of a pivot row that clear the pivot column below it, pivots are non-zero, and back substitution normalises every unknown including the first. A system without a pivot for some unknown is rejected with a panic.",
 I, "every such integer system", "No test calls the solver directly; it is reached through modular polynomials, whose systems have unit pivots in the first row.",
 ["src/simultaneous_equation.rs"], [("fraction-free elimination and back substitution", "src/simultaneous_equation.rs solve")], observe=["solve"])
prop("C32", "Schoof's algorithm computes the trace modulo small primes",
 "For a curve over a prime field of q elements with q > 3, each entry of the result is a modulus l and the residue in [0, l) of the trace of Frobenius modulo l, with exactly one entry for 2 and one for each of 3 and 5 that is smaller than q, in this order. Parity is decided by the common roots of x^q - x and x^3 + a x + b; for odd l the sum (x^(q^2), y^(q^2)) + [q mod l](x, y) is compared with multiples of the Frobenius image, and the equal-abscissa case is resolved by a square root of q mod l.",
 I, "every curve, every prime q > 3", "Both tests are ignored in practice (they did not end) and cover one curve for q = 7 and q = 19.",
 ["src/schoof.rs"], [("division-polynomial identities", "src/schoof.rs schoof")], observe=["schoof"])
prop("C33", "Elkies/Atkins classification",
 "For a curve over F_p and a prime l, the reported polynomial is gcd(x^p - x, Phi_l(x, j)) mod p where Phi_l is the modular polynomial with y replaced by the curve's j-invariant, the reported degree is its x degree, and l is reported as an Elkies prime exactly when that degree is positive. The reported isogenous j-invariants are distinct roots of that polynomial in [0, p), in ascending order: the two smallest roots, or the only one when the degree is 1, and none for an Atkins prime.",
 I, "every curve and every prime l", "Two sampled curves, both with Elkies primes of degree 2.",
 ["src/schoof_elkies_atkins.rs"], [("gcd and root search", "src/schoof_elkies_atkins.rs sea")], observe=["sea", "SEAResult"])
prop("C34", "Results depend on the arguments only",
 "Every library operation is a deterministic function of its arguments: it uses no randomness, clock, environment, file, network, thread, process exit, hash-ordered container, global mutable state or unsafe code, and its only side effect is printing progress to standard output.",
 ["inputs", "histories"], "every public operation and every history of earlier calls", "A test run sees one history in one environment.",
 ["src/lib.rs"], [("pure functions over owned values", "all modules")], observe=["every public function"])
prop("C35", "No silent narrowing of numbers",
 "No library operation converts a number to a narrower or differently signed machine type in a way that can silently change its value: every conversion is value-preserving for all values that can reach it, or checked and rejected with a panic.",
 I, "every conversion site, every value reaching it", "Only values beyond machine ranges reveal a truncation; tests use small ones.",
 ["src/subscripted_variable.rs", "src/modular_polynomial.rs", "src/polynomial.rs", "src/term.rs", "src/elliptic_curve.rs", "src/schoof.rs", "src/schoof_elkies_atkins.rs"], [("checked conversions to_i32/to_u64().unwrap(), asserts before casts", "cast sites")], observe=["cast sites"])
prop("C36", "Copies and conversions keep the value",
 "A clone of a polynomial, term, monomial, unknown, term builder, point or curve has exactly the value of the original (for a curve including its equation and its list of points). Converting a list of division points to a vector, by value, by reference or by dereferencing, yields the same points in the same order. The default polynomial and term are zero, the default monomial is the one without any power, and the default unknown is the empty one.",
 ["inputs"], "every value of these types", "The types are cloned all over the library, but no test compares a copy with its original.",
 ["src/polynomial.rs", "src/term.rs", "src/term_builder.rs", "src/subscripted_variable.rs", "src/elliptic_curve.rs"],
 [("Clone, Default, From and Deref implementations", "all value types")], observe=["clone", "default", "from", "deref"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
