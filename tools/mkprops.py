"""writes properties.jsonl (the text lives here so that it stays reviewable)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
G = 'public/gal/'
prop('C01', 'Basis blade products realise the declared Clifford algebra',
 'For every metric signature and every pair of basis blades, the geometric product of the blades is the blade with the symmetric difference of their factors, scaled by the sign of the reordering and by the squares of the shared basis vectors. The exterior product, the left contraction and the symmetric inner product are exactly the grade-raising, grade-difference and absolute-grade-difference parts of it (the symmetric inner product being zero when either factor is a scalar); reversion, the Poincare dual (in both directions) and the grade of a blade agree with their definitions.',
 ['inputs', 'configurations'], 'all pairs of basis blades of all signatures (p,v,r) that fit the blade representation; all basis blades',
 'The unit tests multiply a handful of blades in two or three fixed signatures; the sign rules must hold for 4^n pairs in every signature.',
 [G+'geometric_algebra.hpp', G+'algebra.hpp'], [('sign of the reordering: parity of swaps', G+'geometric_algebra.hpp'), ('metric of a basis vector by its position', G+'geometric_algebra.hpp'), ('product/contraction functors', G+'geometric_algebra.hpp'), ('reverse / dual', G+'algebra.hpp')],
 ['the element and coefficient of a product of two basis blades'])
prop('C02', 'Every operator of a compiled expression denotes the multivector operation',
 'For every algebra (user-defined signatures included), every combination of entity types and every value of their coordinates, the function compiled from an expression in +, -, *, ^, &, >>, |, scalar product, sandwich, reversion, dual, negation, grade and component selection computes exactly the multivector that the same expression denotes in the algebra. Each coefficient of the result equals, as a polynomial in the inputs, the coefficient of the denoted multivector; no term is lost, duplicated or given the wrong sign.',
 ['programs', 'inputs'], 'all expressions over all entities of all algebras, all real coordinates',
 'Tests compare a few expressions at a few coordinates; equality must hold as polynomials for every expression.',
 [G+'algebra.hpp', G+'dfa.hpp', G+'engine.hpp', G+'expr.hpp'], [('symbolic sums and products of multivectors', G+'algebra.hpp'), ('reverse-polish evaluation of expressions', G+'dfa.hpp'), ('evaluation of monomials at run time', G+'engine.hpp')],
 ['entities returned by compute'])
prop('C03', 'Numeric factors, literals and constants keep their exact value',
 'Integer factors, integer quotients, basis literals and the constants pi and e contribute exactly their mathematical value wherever they appear in an expression: inside sums, products, reversions, duals, selections, quotients, temporaries and results. A factor distributes over everything it multiplies and over nothing else.',
 ['programs', 'inputs'], 'all expressions containing integer/rational factors, basis literals and named constants, whose reduced coefficients have small denominators; all coordinates',
 'Tests use factors in a couple of positions; scale bookkeeping is carried separately from the operand list at every operator.',
 [G+'expr.hpp', G+'dfa.hpp', G+'algebra.hpp', G+'pga.hpp', G+'cga.hpp', G+'vga.hpp', G+'pga2.hpp'], [('rational scale attached to an expression', G+'expr.hpp'), ('per-summand scales in sums', G+'expr.hpp'), ('basis literals', G+'pga.hpp'), ('constants by identifier', G+'engine.hpp')],
 ['entities returned by compute'])
prop('C04', 'Sharing of subexpressions, temporaries, quotients, scalar functions is exact',
 'An expression in which subexpressions repeat (also up to a rational factor, under reversion or dual, across several results), or which contains quotients, square roots or trigonometric functions, evaluates to the same value as the expression evaluated without any sharing. A temporary is computed before it is used, holds the value of its defining subexpression, and is never substituted for a different subexpression.',
 ['programs', 'inputs'], 'all expressions with repeated subexpressions, quotients and scalar functions; all coordinates where the denotation is defined',
 'Sharing is decided by hashing the whole expression; tests include few expressions with repeated parts.',
 [G+'dfa.hpp', G+'expr.hpp', G+'engine.hpp'], [('common subexpression extraction', G+'dfa.hpp'), ('temporary allocation and substitution', G+'engine.hpp'), ('hash of subexpressions', G+'crc.hpp')],
 ['entities returned by compute'])
prop('C05', 'Results are canonical and exact cancellations vanish',
 'In the result of any expression each basis element occurs at most once, in ascending order, and a coefficient that cancels identically, as a polynomial in the inputs (quotients, square roots and function values counting as inputs), is absent or exactly zero. Expressions that are identically zero yield exactly zero whatever the coordinates.',
 ['programs', 'inputs'], 'all expressions, in particular those with cancelling terms (x-x, commutators, a^a, a&b&a); all coordinates',
 'Tests check values with a tolerance, so a missed cancellation (noise instead of zero) or a duplicated component stays invisible.',
 [G+'algebra.hpp', G+'dfa.hpp', G+'engine.hpp', G+'entity.hpp'], [('merging of equal monomials and terms', G+'algebra.hpp'), ('dropping of zero monomials and terms', G+'algebra.hpp')],
 ['the element list of the result type', 'entities returned by compute'])
prop('C06', 'Inputs and results are routed faithfully and memory is accessed in bounds',
 'Each input of a computation is read exactly at its own coordinates and no input is modified; each of several results is delivered in the position in which it was returned, and a component of a result is the component that was asked for. Evaluation reads and writes only the memory of its inputs, temporaries and results.',
 ['programs', 'inputs'], 'all numbers, orders and types of inputs (entities of different sizes, bare scalars, float and double) and of results',
 'Tests mostly pass one or two inputs of one type; an index shift shows only for particular combinations.',
 [G+'engine.hpp', G+'entity.hpp', G+'dfa.hpp', G+'tuple.hpp'], [('flattening of inputs into an indexed array', G+'engine.hpp'), ('identifiers of indeterminates', G+'engine.hpp'), ('construction of result entities', G+'entity.hpp')],
 ['entities returned by compute', 'memory accesses of the compiled function'])
prop('C07', 'Rational arithmetic is exact, canonical and totally ordered',
 'Sum, difference, product, quotient, negation and reciprocal of rationals (and their mixed forms with integers and in-place forms) yield the exact rational whenever no intermediate exceeds the integer range and the denominators are small; results have positive denominators and zero is represented uniquely. Equality, inequality and order agree with the rational values, and conversion to floating point is the quotient of numerator and denominator.',
 ['inputs'], 'all rationals whose cross products fit the 32-bit range',
 'Tests check a few fractions; signs, reductions and zero cases multiply.',
 [G+'numeric.hpp'], [('operators on rationals', G+'numeric.hpp')], ['numerator and denominator of results, results of comparisons'])
prop('C08', 'Rounding of large rationals stays within the stated tolerance',
 'When a rational coefficient has a large denominator the library may replace it by a simpler one, and the replacement differs from the exact value by no more than the stated tolerance of 1e-7, up to one per cent of it (and is exact for denominators below 1024). The replacement has a positive denominator, does not grow numerator or denominator, and never divides by zero.',
 ['inputs'], 'all rationals with 32-bit numerator and positive 32-bit denominator',
 'The space of 2^63 rationals cannot be sampled; the error bound depends on parity and on the size of both parts.',
 [G+'numeric.hpp'], [('overflow gate', G+'numeric.hpp')], ['value of the rounded rational'])
prop('C09', 'Sorting returns a sorted permutation of the range and touches nothing else',
 'For every range length and content, both sorting routines (natural order and caller-supplied comparator) terminate with the range in non-decreasing order, being a permutation of the original elements with their payloads intact, and leave memory outside the range untouched.',
 ['inputs'], 'all lengths and all contents (duplicates, sorted, reversed, adversarial), any strict weak order',
 'The tests sort a few short arrays.',
 [G+'algorithm.hpp'], [('partition around the last element', G+'algorithm.hpp'), ('special cases of two and three elements', G+'algorithm.hpp')], ['contents of the array after sorting'])
prop('C10', 'Integer and power helpers equal their mathematical definitions',
 'Raising to every integer exponent (positive, zero and negative) equals the repeated product or the reciprocal of it; population count, index of the leading set bit, next power of two, byte rotation and next integer of even weight equal their definitions for every machine word.',
 ['inputs'], 'all 32/64-bit words; all exponents; all bases',
 'Tests sample a few words and exponents.',
 [G+'numeric.hpp'], [('binary exponentiation and unrolled small powers', G+'numeric.hpp'), ('bit tricks', G+'numeric.hpp')], ['return values'])
prop('C11', 'Entities convert to multivectors and back without loss',
 'Every geometric entity (points, planes, lines, directions, vectors, motors, rotors, translators, generic entities) stands for the documented multivector; converting that multivector back yields the original coordinates, homogeneous points being normalised by their weight. Selecting components of an entity returns the coefficient of exactly that basis element, and zero for elements that are absent.',
 ['inputs', 'programs'], 'all entity types, all coordinates with nonzero weight, all selections',
 'Tests exercise some entities at a few coordinates.',
 [G+'pga.hpp', G+'pga2.hpp', G+'cga.hpp', G+'vga.hpp', G+'entity.hpp', G+'algebra.hpp'], [('indeterminate expressions of entities', G+'pga.hpp'), ('conversion constructors', G+'pga.hpp'), ('component selection', G+'entity.hpp')], ['coordinates of converted entities'])
prop('C12', 'Join, meet and incidence agree with projective geometry',
 'In the projective algebras (2D and 3D) the join of points is the line or plane through them, the meet of lines or planes is their common point or line with the coordinates that Cramer\'s rule gives, and the product of an incident pair vanishes identically; inner products of planes give the angle, reflections give mirror images. All of this holds for all coordinates, in the documented coordinates of points, lines and planes.',
 ['inputs', 'programs'], 'all coordinates of points, lines and planes',
 'Tests use axis-aligned examples where many terms vanish.',
 [G+'pga.hpp', G+'pga2.hpp', G+'algebra.hpp', G+'expr.hpp'], [('regressive product via Poincare duality', G+'expr.hpp'), ('entity coordinates', G+'pga.hpp')], ['coordinates of joins and meets'])
prop('C13', 'Rotors, translators and motors act as the rigid motions they encode',
 'The sandwich product with a rotor rotates points, planes and lines about its axis by its angle (right-handed in the vector algebra; in the projective algebra in the sense given by its documented formula cos(t/2) + sin(t/2) (x e23 + y e31 + z e12)), with a translator translates by its distance, with a motor composes both, and sandwiching with a product applies the factors in turn. Normalisation yields a motor m with m ~m = 1 that is proportional to the original motion; exponential and logarithm agree with the closed forms for screw motions and invert one another where both are defined.',
 ['inputs'], 'all axes (unit), angles, distances; all motors of nonzero norm; all lines for exp; all normalised motors for log',
 'Tests check a few axis-aligned motions.',
 [G+'pga.hpp'], [('rotor and translator construction', G+'pga.hpp'), ('motor normalisation, exponential, logarithm', G+'pga.hpp')], ['coordinates of transformed entities and of motors'])
prop('C14', 'Conformal points and the null basis satisfy their defining relations',
 'In the conformal algebra the origin and infinity vectors square to zero and have inner product -1 with each other, points are null vectors, and the inner product of two points is minus half their squared distance. Expressions over conformal entities give the same result as the same expression in an orthogonal basis, converted back; components are selected in the null basis.',
 ['inputs', 'programs'], 'all coordinates of conformal points; all expressions over conformal entities and basis literals',
 'Tests use a handful of points.',
 [G+'cga.hpp', G+'null_algebra.hpp', G+'engine.hpp'], [('change of basis to and from the null basis', G+'null_algebra.hpp'), ('indeterminate expression of a conformal point', G+'cga.hpp')], ['entities returned by compute in the conformal algebra'])
prop('C15', 'Tuples and stacks keep their elements',
 'The tuple keeps every element in its position through construction, assignment, element access, push, append, pop, splitting at every point (keeping or dropping an element, or at a type), element-wise mutation and application to a function in order or in reverse; the stack is last-in first-out through push, pop, pop of several and peek at every depth, and reports its size and emptiness correctly. No operation alters elements it does not concern.',
 ['inputs', 'histories'], 'all element values; all sequences of operations within the capacity; all split points',
 'Tests exercise a few operations on small tuples.',
 [G+'tuple.hpp', G+'stack.hpp'], [('recursive storage', G+'tuple.hpp'), ('split / concatenation', G+'tuple.hpp'), ('fixed capacity array with a count', G+'stack.hpp')], ['element values after operations'])
prop('C16', 'Hashes identify expressions and identify nothing else',
 'The checksum used to identify subexpressions is, for one word, the standard reflected CRC-32 of its four bytes (least significant first); it is a bijection of the word and keeps no state between calls. Expressions over distinct inputs, operators, literals or factors are therefore kept apart, while equal ones are recognised as equal.',
 ['inputs', 'programs'], 'all words and all states; all pairs of small expressions',
 'Tests check one vector.',
 [G+'crc.hpp', G+'expr.hpp'], [('table-driven CRC', G+'crc.hpp'), ('checksum of an operator applied to operands', G+'expr.hpp')], ['checksums; number and value of shared subexpressions'])
prop('C17', 'Symbolic multivector arithmetic is a homomorphism to polynomial arithmetic',
 'The compile-time sums, differences, products, scalings, negations, quotients by monomials, reversion and duals of symbolic multivectors denote the sum, difference, product, and so on, of the polynomials in the indeterminates which the operands denote, for arbitrary operands: any number of terms, any exponents (including negative ones), any coefficients. Results (except quotients by an indeterminate) are in normal form: monomials and terms sorted and unique, without zero coefficients; all results stay within the declared capacities. The change between the null and the orthogonal basis and the selection of grades and components denote the same polynomials.',
 ['inputs'], 'all pairs of well-formed symbolic multivectors',
 'Tests cover a few small operands; corner cases (cancellation in the middle, equal monomials from different factors, zero operands, exponents that cancel) are combinatorial.',
 [G+'algebra.hpp', G+'geometric_algebra.hpp'], [('sum: merge of sorted terms', G+'algebra.hpp'), ('product: expansion, sort and merge', G+'algebra.hpp'), ('scale, negate, divide', G+'algebra.hpp')], ['terms, monomials and indeterminates of symbolic results'])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
