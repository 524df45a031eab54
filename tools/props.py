"""Text of every property: source of properties.jsonl, MANIFEST.json and the 'bounds' of the evidence files."""
T_ALG = 'exhaustive bounded enumeration of operands/operation words on the real code in lockstep with a reference model'
T_SEQ = 'explicit-state enumeration of all operation sequences up to a depth on the real code against a reference model'
T_ENV = 'exhaustive enumeration of environment answers / faults on the real code'
NOTE = 'Exhaustive within the stated bounds; outside them the property is not decided. The reference model is compared with the real code on every transition.'
PROPS = [
dict(id='P01', title='Prime fields and integers mod n compute exactly',
  statement='Elements of a prime field, or of the integers modulo n, behave exactly as residues: addition, subtraction, negation, multiplication, squaring, doubling, halving, inversion, division, powers, integer multiples, conversion to and from integers, comparison, sign and the zero and one tests all return what exact integer arithmetic modulo n gives. This holds for every modulus size and every available field implementation (the optimised ones for moduli above one machine word), for every operand value, when the destination is the same element as an operand, and regardless of what the destination held before.',
  over=['inputs', 'configurations'], quant='all moduli, all implementations, all operand values, all aliasing patterns and prior destination values',
  why='The tests multiply a few random residues modulo a handful of primes; carries, borrows, zero results and aliasing depend on particular limb patterns they never hit.',
  files=['arith/naivefp.c', 'arith/fastfp.c', 'arith/fasterfp.c', 'arith/montfp.c', 'arith/fp.c', 'arith/field.c'],
  mech=[('multi-limb add/sub/mul with conditional reduction', 'arith/fasterfp.c, arith/fastfp.c'), ('Montgomery reduction', 'arith/montfp.c'), ('implementation choice by modulus size', 'arith/fp.c')],
  technique=T_ALG, note=NOTE,
  bounds='every residue pair for 26 moduli up to 128 (prime and composite); for 1..17 limbs, 6 shapes of prime modulus plus odd/even composites, all pairs over a 30-70 element boundary alphabet; odd moduli of 2..128 limbs with integers of up to ~650 limbs; all 4 implementations + the default choice; 4 prior contents of the destination and all aliasings'),
dict(id='P02', title='Extension-field arithmetic is exact',
  statement='In every extension field the library builds (quadratic extensions by a nonresidue or by a root of -1, extensions by an irreducible polynomial of any degree, and towers of these), all ring operations, inversion, division, powers, integer multiples, halving, embedding and extraction of coefficients, comparison and the zero and one tests agree with polynomial arithmetic modulo the defining polynomial. This holds for every operand, for aliased arguments and for any prior content of the destination.',
  over=['inputs', 'configurations'], quant='all towers, all defining polynomials, all operand values and aliasings',
  why='Tests check a few random identities in one or two extension fields; degree-specific code paths and special operands (zero coefficients, base-field elements) are not reached.',
  files=['arith/fieldquadratic.c', 'arith/poly.c', 'arith/field.c'],
  mech=[('Karatsuba multiplication for small degrees and reduction tables', 'arith/poly.c'), ('quadratic extension formulas', 'arith/fieldquadratic.c')],
  technique=T_ALG, note=NOTE,
  bounds='whole fields (all ordered pairs up to ~740 elements, representative sets above) for p in 2..23 and degree 2..7 plus 2-3 level towers; 1,2,3,8-limb primes with boundary coefficient alphabets, degree 2,3,5,6,10,12; degrees 7..22 (33) over 1- and 2-limb primes'),
dict(id='P04', title='Square detection and square roots are right in every field',
  statement='For every element of a finite field of odd characteristic, the square test answers yes exactly when the element is the square of some field element (zero included), and the square root of a square, squared, gives the element back. This holds whatever nonresidue or random values the root-finding algorithm draws, and also when the result overwrites the operand.',
  over=['inputs', 'configurations', 'histories'], quant='all fields, all elements, all random choices of the root finder',
  why='Root finding takes value-dependent and randomness-dependent branches (zero components, base-field elements, unlucky random choices) that the few random test elements do not take.',
  files=['arith/tonelli.c', 'arith/fieldquadratic.c', 'arith/poly.c', 'arith/naivefp.c', 'arith/montfp.c'],
  mech=[('Tonelli-Shanks', 'arith/tonelli.c'), ('root in quadratic extensions through the norm', 'arith/fieldquadratic.c'), ('Legendre/Cantor-Zassenhaus style root', 'arith/poly.c')],
  technique=T_ALG, note=NOTE,
  bounds='every element of every field of P02 up to 2500 elements with every first random draw of the root finder for small fields; boundary alphabets and their squares for multi-limb fields, including 2-adicity 20; all four prime-field implementations at 2 and 3 limbs, as fields and under quadratic and cubic extensions'),
dict(id='P06', title='Elliptic-curve points and roots of unity form the right group',
  statement='On every nonsingular curve Y^2=X^3+aX+b, point addition, subtraction, doubling, negation, integer multiples (including negative ones), halving in groups of odd order, batch addition and batch doubling, comparison, the sign and identity tests follow the chord-and-tangent group law, including the identity, points of order two, equal points and opposite points, in any aliasing (the batch forms with each result over its own operands); in a cyclic group the square test tells the doubles from the other points, and coordinates read from a point, or a point made from an x coordinate, belong to the curve. The three groups of every pairing have the advertised order r, and in them additive and multiplicative notation denote the same operation.',
  over=['inputs', 'configurations'], quant='all curves, all point pairs (special points included), all integers, all batches',
  why='Tests add random points, which are never the identity, opposite, or of order two; batch operations with one special entry are never tried.',
  files=['ecc/curve.c', 'ecc/pairing.c', 'ecc/eta_T_3.c', 'arith/field.c'],
  mech=[('chord/tangent formulas and special cases', 'ecc/curve.c'), ('shared inversion in batches', 'ecc/curve.c'), ('GT wrapper group', 'ecc/pairing.c')],
  technique=T_ALG, note=NOTE,
  bounds='complete addition tables of all curves over F_p for p in {5,7,11,13} and a slice for 17..31, curves over small quadratic/cubic/quintic extensions, all batches of length <=2 (3 over special points), six patterns of batches of every length 4-17, 28 and 39, all multiples up to 2|E|; words over 7 points on 1..4-limb fields in 4 implementations; groups of 12 shipped and ~100 toy pairings'),
dict(id='P07', title='Every pairing is bilinear, non-degenerate and method-independent',
  statement='For every valid parameter set of every supported type, the pairing satisfies e(aP,bQ)=e(P,Q)^(ab) for all scalars and all points including the identity and all representatives of a second-group element, takes values whose r-th power is one, equals one for P of exact order r and Q only when it must, and maps a pair of generators to an element of exact order r. Every selectable evaluation method returns the same value for the same inputs, in whatever order methods are selected, and inputs are not modified.',
  over=['inputs', 'configurations', 'histories'], quant='all parameter sets, all methods and method switches, all input pairs',
  why='Tests check bilinearity on a few random points of a few parameter files with the default method; special inputs (identity, dependent points, torsion representatives) and non-default methods are not exercised.',
  files=['ecc/a_param.c', 'ecc/d_param.c', 'ecc/e_param.c', 'ecc/f_param.c', 'ecc/g_param.c', 'ecc/eta_T_3.c', 'ecc/pairing.c', 'include/pbc_pairing.h'],
  mech=[('Miller loops, projective and affine, elliptic nets', 'ecc/*_param.c'), ('final exponentiations', 'ecc/*_param.c'), ('identity short-cut', 'include/pbc_pairing.h')],
  technique=T_ALG, note=NOTE,
  bounds='~200 toy parameter sets of types a, a1, d, e, f, g (r up to 349, A1 composite up to 1517): every pair (iP,jQ) against the table of powers of e(P,Q), every method; whole E[r]xE[r] for type e; BGN-style composite orders; the 12 shipped parameter files with a boundary scalar alphabet and all ordered pairs of methods'),
dict(id='P08', title='Preprocessed pairings and products of pairings equal plain pairings',
  statement='Applying preprocessed pairing data for P to any Q gives exactly e(P,Q), as often as it is applied and even after the element P it was built from is changed or freed. A product of n pairings equals the product of the n individual pairings for every n and every mix of inputs, identities included.',
  over=['inputs', 'configurations', 'histories'], quant='all parameter sets and methods, all P and Q, all vectors of pairs',
  why='Only one random P and Q per parameter file are tested with preprocessing, never identities, never after the input went away.',
  files=['ecc/a_param.c', 'ecc/d_param.c', 'ecc/e_param.c', 'ecc/f_param.c', 'ecc/g_param.c', 'ecc/pairing.c', 'include/pbc_pairing.h'],
  mech=[('stored line coefficients', 'ecc/*_param.c'), ('shared Miller loop for products', 'ecc/*_param.c'), ('default preprocessing keeps a copy', 'ecc/pairing.c')],
  technique=T_ALG, note=NOTE,
  bounds='the toy and shipped parameter sets of P07, every method: preprocessing of every multiple applied to every multiple; all product vectors of length 1-2 over 6 multiples and a regular slice of length 3 (quick) / length up to 4 (thorough), and products of up to 70 (toy) / 33 (shipped) pairings'),
dict(id='P05', title='Every way of raising to a power agrees with repeated multiplication',
  statement='In every field and group the library provides, raising an element to a non-negative integer power with the plain, the preprocessed, the two-base and the three-base exponentiation routines, with integer or modular exponents, and with additive notation in groups, gives exactly the product of that many copies of the element. This holds for every exponent including zero, exponents far above the order of the group, and results stored over an operand; preprocessing leaves its operand unchanged and stays valid when that operand later changes.',
  over=['inputs', 'configurations', 'histories'], quant='all structures, all bases, all exponents, all exponentiation routines and aliasings',
  why='Window sizes and table layouts depend on the exponent length; tests use one random exponent of the size of the order.',
  files=['arith/field.c', 'include/pbc_field.h', 'ecc/curve.c', 'ecc/pairing.c', 'arith/naivefp.c', 'arith/montfp.c'],
  mech=[('sliding windows chosen by exponent length, Shamir trick for 2 and 3 bases', 'arith/field.c'), ('base tables of preprocessed powers', 'arith/field.c'), ('powers of order-bounded exponents', 'arith/naivefp.c')],
  technique=T_ALG, note=NOTE,
  bounds='~230 (quick) / ~450 (thorough) structures: every exponent up to 520 for tiny structures against the running product, boundary exponents around every window-size switch (5..9066 bits), multiples of the order; all pairs/triples of small exponents with all aliasings'),
dict(id='P09', title='Byte encodings are canonical and round-trip',
  statement='Encoding an element to bytes writes exactly the announced number of bytes, decoding those bytes gives back an equal element, and two elements are equal exactly when their encodings are, however they were computed. The encoding is the fixed-width big-endian sequence of the coordinates. For curve points the compressed form round-trips as well, the identity included, and so does the x-only form of finite points up to sign; the lengths a pairing announces for its groups are the lengths of their encodings.',
  over=['inputs', 'configurations', 'histories'], quant='all structures, all elements, all computation histories and encodings',
  why='Tests encode random points; the identity, elements with leading zero bytes and the same value reached along different computations are not covered.',
  files=['arith/naivefp.c', 'arith/fastfp.c', 'arith/fasterfp.c', 'arith/montfp.c', 'arith/fieldquadratic.c', 'arith/poly.c', 'ecc/curve.c', 'ecc/pairing.c', 'arith/field.c'],
  mech=[('fixed-width big-endian export', 'arith/field.c, arith/*fp.c'), ('compressed and x-only points', 'ecc/curve.c')],
  technique=T_ALG, note=NOTE,
  bounds='every element of tiny structures, boundary elements of multi-limb fields and multiples of a generator for toy and shipped pairings, each reached along several computations; residue rings of 17, 35 and 71 limbs and their sqrt(-1) extensions; prior contents of the destination varied. Type I groups have no byte encoding'),
dict(id='P10', title='Decoding arbitrary bytes always yields a valid element',
  statement='Decoding any byte string of the announced length consumes exactly that length and yields a valid value of the structure: residues and coordinates of extension fields (and of GT, whose order is not tested) are fully reduced, a pair of coordinates is accepted as a point only if it satisfies the curve equation and anything else becomes the identity, and compressed or x-only strings that belong to no point become the identity. Whatever was decoded re-encodes to a canonical string and behaves like any other element in arithmetic.',
  over=['inputs', 'configurations'], quant='all structures, all byte strings of the right length, all prior contents',
  why='Tests only decode what was encoded; corrupted, unreduced and off-curve inputs are what an attacker sends.',
  files=['ecc/curve.c', 'arith/naivefp.c', 'arith/fastfp.c', 'arith/fasterfp.c', 'arith/montfp.c', 'arith/fieldquadratic.c', 'arith/poly.c'],
  mech=[('curve equation test when decoding', 'ecc/curve.c'), ('reduction of decoded integers', 'arith/*fp.c')],
  technique=T_ALG, note=NOTE,
  bounds='all byte strings up to 2 bytes for tiny structures, all words over ten boundary values per coordinate (capped) and single-bit corruptions of valid encodings for larger ones (up to 71 limbs), all x with both flags for compressed points'),
dict(id='P11', title='Textual representations round-trip and malformed text is rejected',
  statement='Printing an element in any supported base and reading the text back gives an equal element and reports exactly the number of characters printed or consumed; whitespace between tokens and text after the element do not matter. Printing into a buffer of any size writes nothing beyond it, always terminates the string and reports the full length; printing to a stream that fails reports 0. Text that is not an element (truncated, missing coordinates or brackets, points off the curve) is rejected and leaves a valid element.',
  over=['inputs', 'configurations'], quant='all structures, all elements, all bases, all buffer sizes, all prefixes and structural mutations of valid text',
  why='Tests print one element; buffer-size boundaries and malformed text are not tried.',
  files=['arith/field.c', 'arith/naivefp.c', 'arith/fastfp.c', 'arith/fasterfp.c', 'arith/montfp.c', 'arith/fieldquadratic.c', 'arith/poly.c', 'ecc/curve.c', 'ecc/pairing.c'],
  mech=[('recursive printing and parsing of coordinates', 'arith/fieldquadratic.c, arith/poly.c, ecc/curve.c'), ('bounded printing', 'arith/field.c')],
  technique=T_ALG, note=NOTE,
  bounds='all elements of tiny structures and boundary elements of the others (up to residue rings of 71 limbs), bases 2..62 (subset for large structures), every buffer size (strided for long texts in quick), every prefix, every deletion/replacement of a bracket or comma, every missing coordinate, a junk list, a stream failing after every number of bytes, all coordinate pairs on tiny curves'),
dict(id='P12', title='Hashing to an element is a fixed function into the structure',
  statement='Mapping a byte string to an element gives a valid member of the field or group, depends on nothing but the bytes and the structure (not on prior contents, earlier operations, random state or which prime field implementation is in use), and follows a fixed rule: the bytes repeated with a counter and cut to the size of the modulus for residues, split among the coordinates for extension fields, increment-and-try with the non-negative root and multiplication by the cofactor for curves, the final power of a nonzero hashed field element for GT. Different messages do not all collapse to one element.',
  over=['inputs', 'configurations', 'histories'], quant='all structures, all byte strings and lengths, all histories',
  why='Tests hash one string and only compare with itself; lengths below, at and above the modulus size, values equal to the modulus and messages without an immediate point take other paths.',
  files=['arith/field.c', 'arith/naivefp.c', 'arith/fastfp.c', 'arith/fasterfp.c', 'arith/montfp.c', 'arith/fieldquadratic.c', 'arith/poly.c', 'ecc/curve.c', 'ecc/pairing.c'],
  mech=[('expansion of the hash to an integer', 'arith/field.c pbc_mpz_from_hash'), ('increment-and-try', 'ecc/curve.c curve_from_hash'), ('final power', 'ecc/pairing.c gt_from_hash')],
  technique=T_ALG, note=NOTE,
  bounds='all strings of length 0-1 (2 in thorough) and words over boundary bytes of length 2-3 for ~230 structures, six patterns at every length up to twice the modulus size plus three, integers around the modulus and its shifts; ~70 message lengths up to 70000 bytes for seven moduli of 129 to 9000 bits in five implementations. Excluded: type I groups (no hash function there), tiny curves on which the candidate chain never meets a point'),
dict(id='P13', title='Random elements are members, uniform, and determined by the random source',
  statement='A random element always lies in its structure, and is a function of the numbers drawn from the selected random source alone. If the source is uniform, random elements of fields, residue rings, GT and the groups whose random points are multiples of a generator are exactly uniform, every element being possible. Numbers taken from a file of random bytes lie below the limit, each value arising from equally many byte strings, and a source that ends early yields no number at all; the deterministic source yields the same sequence for the same seed.',
  over=['inputs', 'configurations', 'histories', 'fault_sequences'], quant='all structures, all answers of the random source, all truncations of the source, all sequences of seeding and drawing',
  why='Statistical unit tests cannot see a value that is never drawn, a slight bias, or a stale number after a short read.',
  files=['arith/random.c', 'arith/init_random.c', 'arith/naivefp.c', 'arith/montfp.c', 'arith/fieldquadratic.c', 'arith/poly.c', 'ecc/curve.c', 'ecc/pairing.c', 'ecc/eta_T_3.c', 'arith/ternary_extension_field.c'],
  mech=[('rejection sampling from a file', 'arith/random.c'), ('random multiples of a generator', 'ecc/curve.c'), ('final power of a nonzero field element', 'ecc/pairing.c')],
  technique=T_ENV, note=NOTE,
  bounds='every joint answer of the source for structures with up to 60000 (quick) / 700000 (thorough) of them, boundary answers otherwise; every file of 1-2 bytes for ~50 limits, every truncation length for 15 sizes x 3 limits; 60 files for each of 33 limits of 64 to 16384 bits; all words up to length 5/7 over {seed, draw, switch source}. Type A1 and I points are checked for membership only (the library solves for y there)'),
dict(id='P14', title='Parameter texts are read exactly or rejected, and print back',
  statement='A textual description of pairing parameters is accepted exactly when its type is known and every field the type needs is present with a well-formed number in range. An accepted text gives parameters whose printed form carries the same values, so that printing and reading again gives the same pairing; spacing, comments, order of the fields, unknown extra fields and repeated fields (the last one counts) do not matter, and a buffer with a length is never read beyond it. A rejected text is reported as an error and leaves nothing allocated, and no pairing is made from it.',
  over=['inputs', 'configurations'], quant='all texts: prefixes, missing, repeated, reordered and corrupted fields, separators and types, string and buffer form',
  why='Tests only read well-formed files; truncated or corrupted parameters are what a program reading a file or a peer meets.',
  files=['ecc/param.c', 'misc/symtab.c', 'ecc/a_param.c', 'ecc/d_param.c', 'ecc/e_param.c', 'ecc/f_param.c', 'ecc/g_param.c', 'ecc/eta_T_3.c', 'include/pbc_param.h'],
  mech=[('tokeniser and symbol table', 'ecc/param.c'), ('typed lookups', 'ecc/param.c lookup_mpz, lookup_int'), ('writers', 'ecc/*_param.c')],
  technique=T_ALG, note=NOTE,
  bounds='12 shipped and 12 (quick) / 36 (thorough) toy parameter texts: every single missing line, every key with every other value repeated, all rotations and the reversal, 29 odd numbers per field, 8 separators, 12 types, every prefix, 12 replacements plus deletion and doubling of every byte (strided for long texts in quick); 28 lengths up to 8000 characters of values, keys, comments and gaps on every line, up to 44 unknown fields; buffers end at an unreadable page; allocations counted'),
dict(id='P15', title='Parameter generators produce valid parameters',
  statement='Whatever the random sources answer, every parameter generator terminates with parameters that satisfy the documented equations of their type: q and r are prime, the group order divides the curve order as advertised, the curve really has that order, r is the announced Solinas number of about the requested length (types A, E), l is the smallest multiple of 4 giving a prime (type A1), the polynomials are irreducible and the nonresidues are nonresidues (types D, F, G), the embedding degree is right, type I orders reach the requested size. The pairing made from them is bilinear and non-degenerate.',
  over=['inputs', 'histories', 'configurations'], quant='all sizes, group orders and CM parameters, all answers of the random sources',
  why='Generators are not run by the tests at all; a wrong twist or factor shows only for some random choices or discriminants.',
  files=['ecc/a_param.c', 'ecc/d_param.c', 'ecc/e_param.c', 'ecc/f_param.c', 'ecc/g_param.c', 'ecc/eta_T_3.c', 'arith/poly.c', 'ecc/curve.c', 'ecc/mpz_utils.c'],
  mech=[('random Solinas primes and cofactors', 'ecc/a_param.c, ecc/e_param.c'), ('CM curve from a class polynomial root and twist choice', 'ecc/d_param.c, ecc/g_param.c compute_cm_curve'), ('irreducible polynomials', 'arith/poly.c poly_is_irred'), ('sextic twist choice', 'ecc/f_param.c')],
  technique=T_ENV, note=NOTE,
  bounds='types A and E: every first answer triple (signs, exponent) and every first cofactor draw for rbits 3..10 / 3..7 (14 / 9 thorough) plus fixed-seed runs up to 224/1024 bits; A1: every order 2..1000 (4000) and products of 1-3 primes of 40..512 bits; D, G: up to two (four) CM parameters for every discriminant up to 2000 (6000) and 8000 (24000) with r of at least 24 bits; F: sizes 40..170 (260); I: every size 1..892. Sizes so small that a random point decides wrongly (r below 24 bits for CM types) are outside'),
dict(id='P16', title='Curve searches are exact and class polynomials are right',
  statement='For a discriminant D, the MNT and Freeman searches report each set of CM parameters whose curve order has at most the given number of bits exactly once and nothing else: q is prime, n = q + 1 - t = h r with r prime and h having only factors of at most 16 bits, 4q - t^2 is D times a square and the embedding degree is 6 or 10; a nonzero callback value ends the search and is returned. The class polynomial of a fundamental discriminant is monic of degree the class number, and modulo every suitable prime its roots are exactly the j-invariants of the curves with that complex multiplication. Nothing stays allocated.',
  over=['inputs'], quant='all discriminants, all bit limits, all callback answers',
  why='The tests never run the searches or check a class polynomial.',
  files=['ecc/mnt.c', 'ecc/hilbert.c', 'ecc/mpc.c', 'include/pbc_mnt.h', 'include/pbc_hilbert.h'],
  mech=[('generalised Pell equation by continued fractions', 'ecc/mnt.c general_pell'), ('enumeration of reduced forms and complex j values', 'ecc/hilbert.c')],
  technique=T_ALG, note=NOTE,
  bounds='every discriminant up to 2000 (quick) / 8000 (thorough) with 12 bit limits from 8 to 500, against brute force over all q below 2^28 (MNT) / 2^46 (Freeman) [2^34 / 2^56 thorough], each stopping point; the exact table of all curves with order below 2^500 for D < 8000 (MNT) and 40000 (Freeman), computed independently, with every bit limit around the length of each solution; the discriminants of the shipped D and G parameters; discriminants around 2^32/3; class polynomials of every fundamental discriminant below 400 (1600), modulo brute-force point counts for as many primes as the budget allows, usually determining every coefficient exactly'),
dict(id='P17', title='Integers and integer multinomials compute exactly',
  statement='The ring of integers and the ring of integer multinomials (nested lists of coefficients) compute exactly: sums, differences, products, negatives, small multiples, powers and (for integers) exact halves, truncated quotients and square roots are those of the mathematical objects whatever the nesting and length of the operands and however operands and result are aliased; comparison is a total order under which two values are equal exactly when they denote the same multinomial, and agrees with the tests for zero and one. The byte form of an integer has the announced length, is never written beyond it, carries sign and magnitude, reads back as the same integer with the input untouched. Converting a multinomial into a field or curve sets it coefficient by coefficient, and a pair that is no point becomes the identity. Nothing stays allocated.',
  over=['inputs'], quant='all integers, all multinomials of every shape, all aliasing patterns, all target structures',
  why='The tests never touch these rings, which carry every literal of the calculator.',
  files=['arith/z.c', 'arith/multiz.c', 'arith/poly.c', 'arith/fieldquadratic.c', 'ecc/curve.c', 'include/pbc_z.h', 'include/pbc_multiz.h'],
  mech=[('GMP wrappers and byte format', 'arith/z.c'), ('recursive coefficientwise operations', 'arith/multiz.c multiz_new_bin, multiz_new_mul, multiz_cmp'), ('conversion of multinomials', 'set_multiz in arith/poly.c, arith/fieldquadratic.c, ecc/curve.c')],
  technique=T_ALG, note=NOTE,
  bounds='all pairs of 183 integers (-40..40 and 2^k, 2^k +- 1 for 17 k up to 200, both signs) per operation with four aliasings; byte form of every integer in +-70000 (17 million in thorough); all pairs of several hundred (thorough: 2990) multinomials of depth up to two, judged by evaluation at points that make evaluation injective; lists of up to 40 items in six patterns, nested four ways; conversion of ~2990 multinomials into ~260 structures. Reading negative numbers from text is not provided by the library'),
dict(id='P18', title='Discrete logarithms are right',
  statement='In any group with a generator of known order, brute force and Pollard rho return the exponent x with g^x = h for every h in the group, whatever numbers the random source supplies for the walk (including those whose first collision carries no information) and whether or not the order is prime; base and target are unchanged.',
  over=['inputs', 'histories', 'configurations'], quant='all groups, all logarithms, all answers of the random source',
  why='The tests take one random logarithm; degenerate collisions and composite orders are rare.',
  files=['arith/dlog.c', 'misc/darray.c'],
  mech=[('random walk with snapshots and solution of the linear congruence', 'arith/dlog.c element_dlog_pollard_rho'), ('counting', 'arith/dlog.c element_dlog_brute_force')],
  technique=T_ENV, note=NOTE,
  bounds='every exponent (strided above order 60 in quick) in G1, G2, GT of toy pairings of six types and in the subgroups of F_p* for nine p; the walk scripted with every small constant multiplier pair and start, all 256 zero/one patterns of multipliers, and 4 (12) fixed seeds; subgroups of prime order 2^12..2^32 (2^44) for walks through many snapshots'),
dict(id='P19', title='Formatted printing is the concatenation of its pieces',
  statement='The printf family for elements prints literal text, doubled percent signs, standard integer, pointer and string conversions, GMP integers and elements exactly as the corresponding single conversions would, in order, whatever their mixture, and reports the number of characters; bounded printing writes a terminated prefix that fits, nothing outside the buffer, and reports the full length for every size including zero. Diagnostics carry their prefix and a newline, are cut at 1023 characters, can be switched off, and a fatal one ends the program with status 128. Nothing stays allocated.',
  over=['inputs', 'programs', 'configurations'], quant='all format strings built from supported conversions, all arguments, all buffer sizes',
  why='Tests print to a terminal and nobody compares; boundaries of buffers and adjacent conversions are not tried.',
  files=['misc/extend_printf.c', 'misc/utils.c', 'arith/field.c', 'arith/poly.c', 'arith/fieldquadratic.c', 'ecc/curve.c'],
  mech=[('format splitting', 'misc/extend_printf.c do_print'), ('bookkeeping of the remaining space', 'misc/extend_printf.c next'), ('diagnostics', 'misc/utils.c report')],
  technique=T_SEQ, note=NOTE,
  bounds='all sequences of up to 3 (thorough: 4) of 32 pieces over tiny fields, up to 2 starting with an element for ~90 (thorough: all) further structures; every buffer size up to the length plus two (strided in the middle of long texts). \'%%\', %B, %d, %s, %Zd at every offset up to 2400, ~15000 conversion specifications with long flags, widths and precisions, up to 32 conversions in one format. Floating-point and * conversions are documented as unsupported in the source (all arguments are pointers)'),
dict(id='P22', title='Dynamic arrays and symbol tables behave as lists and maps',
  statement='After any sequence of operations a dynamic array holds exactly the pointers a list would hold, in order: appending, removing by index, by value, from the end, by predicate (all that match) or everything, and copying between arrays (including empty ones) never lose, duplicate or reorder other items, and the traversals visit each item once in order. A symbol table maps each key, compared as a string and independent of the caller\'s buffer, to the value put last, and knows no other keys. Neither reads or writes outside its memory, nor leaves any behind.',
  over=['histories', 'inputs'], quant='all sequences of operations from all initial sizes',
  why='No test exercises these containers, on which parameter reading, polynomials and the calculator rest; the growth steps and empty arrays are boundary cases.',
  files=['misc/darray.c', 'misc/symtab.c', 'misc/darray.h', 'misc/symtab.h'],
  mech=[('growth by doubling', 'misc/darray.c darray_append'), ('compaction', 'misc/darray.c darray_remove*'), ('linear search', 'misc/symtab.c')],
  technique=T_SEQ, note=NOTE,
  bounds='every sequence of 5 (6) of 17 operations on two arrays from sizes 0..17 around each growth step, 4 (5) from sizes 31..100; the library\'s own allocator for depth 3; every sequence of 4 (5) puts over 5 keys x 3 values on tables holding 0..40 entries'),
dict(id='P20', title='Everything allocated is released and nothing outside is touched',
  statement='Every element, field, pairing, parameter set, precomputation and generator can be initialised, used and cleared in any supported way with every block it allocated (through the library\'s or GMP\'s allocation functions) released exactly once, whatever operands it met (identity, zero, one, failed decodings, malformed text, zero exponents, rejected parameters); no operation reads or writes outside the memory it owns or was given, and the allocation functions of the library and of GMP are never mixed up.',
  over=['histories', 'inputs', 'configurations'], quant='all structures, operations, operands and life cycles',
  why='Tests exit without checking; leaks and one-byte overruns on special operands go unnoticed until a long-running service dies.',
  files=['arith/field.c', 'arith/poly.c', 'arith/fieldquadratic.c', 'arith/fastfp.c', 'arith/fasterfp.c', 'arith/montfp.c', 'ecc/curve.c', 'ecc/pairing.c', 'ecc/a_param.c', 'ecc/d_param.c', 'ecc/e_param.c', 'ecc/f_param.c', 'ecc/g_param.c', 'ecc/eta_T_3.c', 'ecc/param.c', 'misc/memory.c'],
  mech=[('init/clear pairs of every structure', 'arith/*.c, ecc/*.c'), ('precomputation tables', 'ecc/a_param.c a1_pairing_pp_clear, arith/field.c default_element_pp_clear'), ('rejected parameters', 'ecc/param.c')],
  technique=T_SEQ, note=NOTE,
  bounds='46 operations x up to 36 operand pairs (144 thorough) x two variants x two aliasings on ~200 structures (fields of every implementation, towers, curves, groups of toy and shipped pairings); nine life cycles per pairing and method option; parameters with every single line removed; generators at a few sizes; once with a counting, guard-byte allocator, once (fewer operands) under AddressSanitizer and UBSan with exactly sized buffers'),
dict(id='P03', title='Results depend on values, not on how the values came about',
  statement='The outcome of every operation is a function of the values of its operands alone. An element computed by any sequence of operations (assignments, arithmetic with any aliasing, roots, failed decodings of bytes or text, resets, precomputed powers, direct writes to its items) behaves exactly like a fresh element decoded from its canonical bytes: the same comparisons, bytes, signs, zero/one tests and the same results from every later operation. Likewise at the level of pairings: whatever sequence of group operations, decodings, precomputations, products, option changes and earlier pairings went before, e(xA, yB) is e(A, B)^(xy).',
  over=['histories', 'inputs', 'configurations'], quant='all sequences of operations up to a depth on all structures',
  why='Zero flags, stale coordinates behind the point at infinity, unreduced limbs and cached precomputation are invisible until a particular later operation reads them; tests use short fixed sequences.',
  files=['arith/montfp.c', 'arith/fasterfp.c', 'arith/fastfp.c', 'arith/naivefp.c', 'arith/poly.c', 'arith/fieldquadratic.c', 'arith/z.c', 'ecc/curve.c', 'ecc/pairing.c', 'ecc/a_param.c', 'ecc/d_param.c', 'ecc/e_param.c', 'ecc/f_param.c', 'ecc/g_param.c'],
  mech=[('zero flag of Montgomery residues', 'arith/montfp.c'), ('point-at-infinity flag with stale coordinates', 'ecc/curve.c'), ('precomputation state', 'arith/field.c element_pp_*, ecc/*_param.c pairing_pp_*')],
  technique=T_SEQ, note=NOTE,
  bounds='every sequence of 2 of up to 72 operations on two registers from two starting states on ~200 structures, 3 on representatives of each kind (3 on all cheap structures in thorough); every sequence of 4 (5) of 20 operations on pairings of types A, A1, D, E and 3 of types F, G'),
dict(id='P24', title='Polynomial rings and their quotients compute exactly',
  statement='Elements of a polynomial ring R[x] (field_init_poly) behave as polynomials: sums, differences, products, powers, multiples by integers and constants, coefficient updates, copies, comparisons, text and bytes (including encodings with leading zero terms) give the exact polynomial with no spurious leading zeros, whichever operands share storage. A quotient R[x]/(f) for any monic f, reducible or not, adds, multiplies, squares, powers and inverts its units exactly. Irreducibility testing is right for every monic polynomial, and root finding over fields of odd characteristic returns a root exactly when there is one, whatever random choices are made.',
  over=['inputs', 'configurations'], quant='all polynomials, moduli and random draws',
  why='Tests sieve a few polynomials over one field; results whose leading terms cancel, reducible moduli and in-place operation on operands of different degree go unexamined, yet parameter generation and extension fields rest on them.',
  files=['arith/poly.c', 'include/pbc_poly.h'],
  mech=[('leading-zero invariant', 'arith/poly.c poly_remove_leading_zeroes'), ('Karatsuba products and reduction tables', 'arith/poly.c polymod_mul, compute_x_powers'), ('Rabin irreducibility test, Cantor-Zassenhaus', 'arith/poly.c poly_is_irred, poly_findroot')],
  technique=T_ALG, note=NOTE,
  bounds='all pairs of polynomials of degree <=4 over F2, <=2 over F3, F4, F5, <=1 over F7, F9 (one or two degrees more in thorough) with every aliasing; boundary coefficients over multi-word primes in all four implementations; every monic polynomial up to degree 9/6/4/4/3/3 for irreducibility and up to degree 5 for roots with all pairs of first random draws; every monic modulus of degree 2..5 over F2, 2..3 over F3, 2 over F4, F5, F9 and slices of degree 5, 6; polynomials of every length 8..19 and up to 49 (four coefficient patterns) against every length below 50, quotients of degree 7..40; irreducible binomials and Artin-Schreier polynomials of degree up to 40, their products, and products of up to 40 linear factors over 12 primes'),
dict(id='P21', title='Objects in use side by side do not disturb each other',
  statement='Pairings, fields, precomputations, parameter sets and generators have no hidden shared state: a program that works with several of them at once, of the same or different types, gets from each exactly the results it would get from that one alone, however the calls are interleaved (including initialisation, method options, precomputation and clearing of one between two calls on another), given the same random draws.',
  over=['schedules', 'histories', 'configurations'], quant='all interleavings of the calls of independent users of the library',
  why='Every test program works with one pairing at a time; a cached table, a static scratch variable or a shared function table shows only when a second object is used in between.',
  files=['ecc/pairing.c', 'ecc/a_param.c', 'ecc/d_param.c', 'ecc/e_param.c', 'ecc/f_param.c', 'ecc/g_param.c', 'ecc/eta_T_3.c', 'ecc/hilbert.c', 'ecc/curve.c', 'arith/field.c', 'arith/poly.c', 'arith/fieldquadratic.c'],
  mech=[('per-object state only', 'ecc/*_param.c, arith/*.c'), ('global constants of the Hilbert polynomial computation', 'ecc/hilbert.c'), ('method options stored in the pairing', 'ecc/*_param.c option_set')],
  technique=T_SEQ, note=NOTE,
  bounds='every interleaving of two scripts of 7 steps (3432) for same-type pairs of types A, A1, D, E and for field scripts, of 4 bundled turns for the other combinations of types A, A1, D, E, F, G, fields and generators, of 3 turns with real-size A, D and I; every interleaving of three scripts of 3 turns (1680) for ten triples; thorough runs all pairs at 7 steps'),
dict(id='P27', title='Only the configured memory functions are used, and safe-clean builds wipe',
  statement='Once pbc_set_memory_functions has installed other allocation functions, no part of the library calls the C allocator behind their back. In a build with --enable-safe-clean (SAFE_CLEAN) every heap block of the library and of GMP is all zero when it goes back to the C allocator, whichever way it is released (freed, cleared, grown or shrunk by reallocation), reallocation keeps the common part of the content and never writes outside the new block, and the same holds for the plain build\'s reallocation.',
  over=['histories', 'configurations', 'inputs'], quant='all structures, operations and pairs of block sizes',
  why='The safe-clean configuration is never built by the tests, and a compiler may silently drop the wiping; a direct malloc works until somebody installs a secure allocator.',
  files=['misc/memory.c', 'include/pbc_memory.h', 'arith/field.c', 'arith/poly.c', 'arith/multiz.c', 'misc/darray.c', 'misc/symtab.c', 'ecc/param.c'],
  mech=[('wiping allocator', 'misc/memory.c SAFE_CLEAN'), ('function pointers pbc_malloc, pbc_realloc, pbc_free', 'misc/memory.c pbc_set_memory_functions')],
  technique=T_SEQ, note=NOTE,
  bounds='all operations, life cycles and generators of P20 (fewer operands) plus arrays, symbol tables, integers, multinomials, polynomials, discrete logs and Hilbert polynomials, once in a SAFE_CLEAN build and once with other memory functions installed, with every allocator call of the library intercepted at link time; all reallocations between sizes 1..100 (1..300)'),
dict(id='P25', title='The calculator evaluates what its grammar says',
  statement='The pairing-based calculator prints, for every statement, the exact value of the expression under the documented grammar: standard precedence and associativity of + - * / ^ and unary minus, C comparisons and the ternary operator (only the chosen branch is evaluated), assignments that return the value without printing at statement level, big integers with truncating division, residues (zmod), polynomials (poly), quotients and extensions (polymod, extend), lists and their items, casts between integers and fields, random elements, orders, nextprime, inverses and roots, and the pairing on every built-in parameter set. Values are values: evaluating an expression never changes a variable that it does not assign, function arguments are evaluated before parameters are set, and a statement that is in error (syntax, undefined names, wrong number or kind of arguments, items out of range, assignment to reserved names) prints a message, gives no variable or parameter an erroneous value, and the session goes on with all variables as they were. Whitespace, both comment styles, statements spanning lines, lines of any length, -y mode (newline terminators, = assignment, blank lines), script files and standard input are equivalent ways to enter the same statements. exit(n) ends with status n, and CHECK stops the program exactly when its argument is zero.',
  over=['inputs', 'programs', 'histories'], quant='all expressions, statement sequences and input forms',
  why='Three fixed scripts test the calculator; operators overwrite their operands in place, so a missing copy changes a variable somewhere else, and precedence slips show only in particular combinations.',
  files=['pbc/pbc.c', 'pbc/parser.y', 'pbc/parser.lex', 'pbc/pbc_getline.c'],
  mech=[('operator precedence', 'pbc/parser.y'), ('copies of values on evaluation', 'pbc/pbc.c v_elem_eval, eval_assign, run_item'), ('error values', 'pbc/pbc.c val_new_error, v_builtin'), ('line input', 'pbc/pbc_getline.c, pbc/pbc.c yywrap_readline')],
  technique=T_SEQ, note='The statements are generated together with what a reference evaluator (own precedence-climbing parser, exact integers, coefficient arithmetic) says they print, and run through the real flex/bison parser and evaluator in a child process; output is compared line by line.',
  bounds='all expressions of four operands over 11 operators with 11 bracketings and all sign patterns for two (six) sets of operands; all two-operand expressions over 15 values, 11 operators, signs and 6 spacing/comment styles; 36 shapes of ternaries and assignments x 24 operand choices; every sequence of 4 (5) of 14 statements over 5 variables and 4 functions; complete tables mod 2..17 and slices mod 101, 1009; all lists up to 4 entries over 4 values, GF(9), GF(25), GF(49); all pairs of 72 erroneous statements; 225 interactive sessions with syntax errors, all lengths of line around the buffer sizes, every -y session of 3 of 11 lines; identities on the six built-in pairings'),
dict(id='P28', title='Ternary fields and the type I pairing are exact',
  statement='Elements of GF(3^m) (any reduction trinomial and any m, in particular at and beyond word boundaries) and of the towers GF(3^2m), GF(3^3m), GF(3^6m) add, subtract, negate, multiply, square, cube, invert, take square roots (odd m) and powers exactly, in place or not, are compared and recognised as 0 and 1 exactly, keep the canonical encoding, and convert to bytes and back without change. On the supersingular curve y^2 = x^3 - x + 1 the type I group law, multiples, negatives, halves and random points are exact, random field elements are uniform, and the eta_T pairing is bilinear, symmetric and of full order on the group, for each of the four residues of m mod 12 and for both Miller loops, also when precomputed or multiplied together.',
  over=['inputs', 'configurations'], quant='all field elements, points and extension degrees',
  why='The tests use one m (97) and a few random elements; the bit-sliced code has word-boundary cases and the pairing has branches by m mod 12 that m = 97 never takes.',
  files=['arith/ternary_extension_field.c', 'ecc/eta_T_3.c', 'include/pbc_ternary_extension_field.h', 'include/pbc_i_param.h'],
  mech=[('bit-sliced GF(3) arithmetic and trinomial reduction', 'arith/ternary_extension_field.c gf3m_*'), ('tower multiplication and inversion', 'arith/ternary_extension_field.c gf32m_*, gf33m_*'), ('point addition, eta_T loops and final powering', 'ecc/eta_T_3.c')],
  technique=T_ALG, note=NOTE,
  bounds='all pairs of elements of GF(3^m) for m <= 5 and slices up to m = 9, all elements of the towers over m = 2..5 (sliced pairs), boundary elements and all monomials for 22 trinomials with m = 31..400, towers over m = 61, 64, 67, 97; complete groups of 217 and 301 points and subgroups for m = 5, 7, 11, 13 with complete or sliced addition and pairing tables'),
dict(id='P23', title='The C++ wrapper computes what its operators say',
  statement='Through include/pbcxx.h, every operator and method of ZrElement, G1Element, G2Element and GTElement yields the group or ring result it is written as - compound and binary forms agree, also when both operands are the same object - changes only the object it is applied to, returns the object itself from in-place forms, and compares, tests for 0 and 1, copies, assigns, hashes and converts to and from bytes exactly; copies never share storage. Pairing is the pairing of the parameters for apply and operator(); pairing two elements of one group works on symmetric pairings and throws std::invalid_argument on others without touching the result; from_bytes throws on buffers of the wrong length; a Pairing constructed from text that describes no pairing throws. Every object releases what it acquired, in exceptions too.',
  over=['inputs', 'programs', 'histories'], quant='all sequences of wrapper operations, elements and parameter texts',
  why='No test includes the header at all.',
  files=['include/pbcxx.h'],
  mech=[('operators and methods', 'include/pbcxx.h ElementWrapper, GElementBase'), ('construction and pairing', 'include/pbcxx.h Pairing')],
  technique=T_SEQ, note=NOTE,
  bounds='every sequence of 2 of 42 operations from every pair (49 pairs; 2 to 6 for the slow groups) of elements, and of 3 operations from one pair (nine), in Zr, G1, G2 and GT of complete toy groups of types A, A1, D, E, F, G; complete pairing tables in all argument combinations; every parameter text with one line removed; six (eight) shipped parameter sets compared operation by operation with the C interface, messages with NUL bytes and integers of all sizes included'),
dict(id='P26', title='The co-DDH test decides exactly the Diffie-Hellman tuples',
  statement='is_almost_coddh(a, b, c, d) is true exactly when (a, b, c, d) = (g, g^x, h, h^x) or (g, g^x, h, h^-x) for some x, that is when e(a, d) = e(b, c)^(+-1), on every pairing type, including tuples that contain the identity or the same element several times; it changes none of its operands and releases all it allocates. On symmetric pairings the isomorphism G2 to G1 is the identity map.',
  over=['inputs'], quant='all quadruples of group elements',
  why='No test calls the function, and the two specialised versions (types D and G) duplicate the pairing code without its handling of the identity.',
  files=['ecc/pairing.c', 'ecc/d_param.c', 'ecc/g_param.c', 'include/pbc_pairing.h'],
  mech=[('generic test', 'ecc/pairing.c generic_is_almost_coddh'), ('specialised tests', 'ecc/d_param.c, ecc/g_param.c cc_is_almost_coddh')],
  technique=T_ALG, note=NOTE,
  bounds='all quadruples of multiples of two generators on complete toy groups with r <= 7, and for r <= 16 (31) all positive ones, all with the identity and a third of the negative ones (thorough: all); slices of quadruples over boundary scalars on the shipped parameters'),
dict(id='P29', title='The F_p implementation in use cannot be seen in any result',
  statement='Whatever implementation of F_p is chosen with pbc_tweak_use_fp (naive, fast, faster, mont), every result is the same: with the same random answers, pairings made from the same parameters give the same elements, hashes, encodings (also compressed and x-only), text, signs, square tests, powers and pairings, precomputed or not, and the generators print the same parameters. The choice affects only fields created afterwards; fields created under different choices, or of moduli too small or even, work side by side; an unknown name changes nothing.',
  over=['inputs', 'configurations', 'histories'], quant='all implementations, all sequences of choices and creations, all operations of a pairing',
  why='The choice is global state no test changes, and the four representations differ in what an element stores, so code that assumes one of them works in the default build only.',
  files=['arith/fp.c', 'arith/naivefp.c', 'arith/fastfp.c', 'arith/fasterfp.c', 'arith/montfp.c'],
  mech=[('choice of implementation', 'arith/fp.c pbc_tweak_use_fp, field_init_fp'), ('four representations of residues', 'arith/*fp.c')],
  technique=T_SEQ, note='Transcripts of the same run under the four choices are compared byte by byte; in histories every field is compared with integer arithmetic after every step.',
  bounds='every history of 5 (6) steps over 5 names and 5 moduli (one word; two and three limbs; even and odd composite), every field rechecked after every step; transcripts of the 12 shipped pairings; generators of types A, E and F at 20 (30) sizes'),
dict(id='P30', title='Debug builds stop at mixed fields and nowhere else',
  statement='The library and its users compile with PBC_DEBUG defined. Then assigning, adding, subtracting, multiplying, dividing, doubling, halving, squaring, raising to powers, negating, inverting, taking roots, comparing, and the batch forms end the program at the call exactly when the destination and operands (not counting integer exponents) are not all of the same field, and the pairing functions do exactly when the operands and the result are not from G1, G2 and GT of one pairing. Correct use, of every structure and operation of the library, is never stopped.',
  over=['inputs', 'configurations'], quant='all operations, all combinations of fields, all operands',
  why='No test is built with PBC_DEBUG; the checks vanish from normal builds, so a wrong one goes unnoticed.',
  files=['include/pbc_utils.h', 'include/pbc_field.h', 'include/pbc_pairing.h', 'misc/utils.c', 'arith/field.c', 'arith/multiz.c', 'arith/poly.c'],
  mech=[('field match assertions', 'include/pbc_utils.h, misc/utils.c'), ('checks in every operation', 'include/pbc_field.h, include/pbc_pairing.h')],
  technique=T_ALG, note='Exhaustive over the pool of structures; the end of the program is observed as SIGABRT.',
  bounds='19 operations with every pair or triple of 17 fields and groups (prime, multi-limb, quadratic, curve, integers, the groups of three pairings); the three pairing functions with every triple of them; every operation on all structures of the catalogue (elements as in P09, fewer each), 10 generated parameter sets, 81 pairs of integer lists'),
dict(id='P31', title='The bundled generator and listing programs do what their arguments ask',
  statement='The programs in gen print exactly what the library determines for their arguments (or their defaults) and nothing else: genaparam, geneparam and genfparam print parameters of the requested sizes, gena1param parameters whose order is the product of two random primes of about 512 bits, gendparam and gengparam the parameters made from the first curve the search reports for the discriminant; listmnt and listfreeman list, after a heading, every curve of order up to 500 bits for every discriminant of their class from the given one to 10^9, in order and none twice; hilbertpoly prints the class polynomial of every admissible discriminant of the range, with every sign, coefficient and exponent. A discriminant or size outside the documented class, or without any curve, is refused: nothing is printed and the exit status is not zero.',
  over=['inputs', 'configurations'], quant='all argument lists, all answers of the random sources',
  why='No test runs these programs; what they leave out or mistake shows only for particular arguments, or late in an unbounded listing.',
  files=['gen/genaparam.c', 'gen/gena1param.c', 'gen/gendparam.c', 'gen/geneparam.c', 'gen/genfparam.c', 'gen/gengparam.c', 'gen/listmnt.c', 'gen/listfreeman.c', 'gen/hilbertpoly.c'],
  mech=[('argument handling', 'main of each program'), ('search callbacks', 'gen/gendparam.c generate, gen/listmnt.c consider'), ('walk over discriminants', 'gen/listmnt.c, gen/listfreeman.c main')],
  technique=T_ENV, note=NOTE,
  bounds='genaparam, geneparam: no argument, one argument, every pair (r, q) with r = 5..24 (60) and q in 17 values each, two (eight) states of the random source; gena1param: 12 (64) states; gendparam: every D in -200..1500 (4000); gengparam: every D up to 1000 and every admissible one up to 40000 (150000); genfparam: sizes 40..180 (256), every size from -300 to 0; listmnt: from 7 to 4000 (40000) and ~32 other starting points up to 10^6 (10^7) followed for 1200 (4000) discriminants, the end at 10^9, every inadmissible start below 400; listfreeman likewise to 60000 (600000); hilbertpoly: every D up to 700 (3000), every range of up to 8 (24) discriminants below 120 (400). The library functions behind them are decided by P15 and P16'),
]
NOT_APPLICABLE = {}
BOUNDS = {p['id']: p['bounds'] for p in PROPS}
