#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is this table)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
PF="src/primefield/mod.rs"; QF="src/quadraticfield/mod.rs"
W="src/weierstrass/"; E="src/edwards/"; M="src/montgomery/"; I="src/instances/"

p("C01","Prime-field arithmetic is exact arithmetic modulo p",
 "For every odd prime p and all elements x, y of GF(p), the sum, difference, product, negation, square, inverse and quotient are exactly the canonical residues that integer arithmetic modulo p prescribes, where the inverse of zero is zero. The result is the same whether operands are passed by value or by reference, and equality and the zero and one tests agree with the residues.",
 ["inputs"],"every odd prime p, every pair of elements, every operator and ownership form of its operands",
 "No test of the repository evaluates a field operation against an expected value; the points used in the serialization tests touch a handful of elements of the named fields.",
 [PF,"src/field.rs","src/ops.rs"],[("reduction after every operation","FpElt::red"),("inversion by Fermat exponentiation","FpElt::inv_mod"),("operator implementations","impl_op_ex! blocks and Add impls for FpElt")],
 observe=["operators on FpElt","to_string","==","is_zero/is_one"])
p("C02","Field elements denote the integers they are built from",
 "An element built from a big integer of any sign and size, from any machine integer, or from a well-formed numeral (an optional minus sign followed by decimal digits, or by 0x, 0o or 0b and digits of that radix) is the residue of that integer modulo p, and prints as the canonical decimal residue. In the quadratic field an integer denotes the element with that real part, and two numerals separated by a comma denote the real and the imaginary part.",
 ["inputs"],"every integer and every well-formed numeral, in every prime and quadratic field",
 "Only the constants of the named curves are ever parsed; negative, prefixed, oversized and boundary integers are never compared with an expected residue.",
 [PF,QF,"src/field.rs","src/ops.rs"],[("floored reduction","Fp::elt"),("radix and sign parsing","impl FromFactory<&str> for Fp / Fp2"),("machine integers","impl_from_factory!")],
 observe=["Field::elt","FromFactory::from","Display"])
p("C03","Exponentiation agrees with repeated multiplication",
 "In a prime field and in a quadratic field, raising x to an integer exponent e gives the product of e copies of x when e is not negative (1 when e is 0), and the e-th power of the inverse of x when e is negative, where the inverse of zero is zero. Signed and unsigned exponents of any size agree. The machine-integer shorthands x^2 and x^-1, and 1/x (also for scalars), are the square and the inverse; every other machine-integer exponent or numerator is refused with a panic.",
 ["inputs"],"every element of every field and every exponent, including zero, negative, larger than the group order and of many machine words",
 "No test raises an element to a power and compares the outcome; exponentiation in the quadratic field is not exercised at all.",
 [PF,QF],[("modular exponentiation, reduction of exponents","BitXor impls for FpElt"),("square and multiply over 32-bit digits","BitXor impls for Fp2Elt")],observe=["the ^ operator"])
p("C04","Square roots and quadratic-residue test in prime fields",
 "For every prime p that is 3 modulo 4 or 5 modulo 8 and every x in GF(p), the quadratic-residue test answers true exactly when some y satisfies y*y = x (zero included), and whenever it answers true the computed square root squared is x. For every other odd prime the quadratic-residue test is still exact, and the square root of a residue is either refused with a panic or right.",
 ["inputs"],"every odd prime p in the supported classes and every element",
 "Square roots are only taken at the generators of the five curves with compressed points; wrong branches for particular residues or primes are not visible there.",
 [PF],[("Euler criterion","FpElt::is_square"),("precomputed exponents per class of p","Fp::calc_sqrt_precmp"),("Atkin/Lagrange style roots","FpElt::sqrt")],
 state=[("square-root precomputation","exponent and root of -1 cached per field on first use","Params::sqrt_precmp")],observe=["Sqrt::is_square","Sqrt::sqrt"])
p("C05","Quadratic-field arithmetic is exact arithmetic in GF(p)[i]",
 "For every prime p that is 3 modulo 4 and all elements x, y of GF(p)[i] with i*i = -1, the sum, difference, product, negation, square, inverse and quotient are exactly the ones of that field, where the inverse of zero is zero. The result is the same whether operands are passed by value or by reference, and equality and the zero and one tests agree with the coordinates.",
 ["inputs"],"every prime p = 3 mod 4, every pair of elements, every operator and ownership form",
 "No test constructs an element of a quadratic field; the only use is a doc example that builds the field.",
 [QF],[("coordinate formulas","impl_op_ex! blocks for Fp2Elt"),("inversion through the norm","Fp2Elt::inv_mod")],observe=["operators on Fp2Elt"])
p("C06","Square roots and quadratic-residue test in quadratic fields",
 "For every prime p that is 3 modulo 4 and every x in GF(p)[i], the quadratic-residue test answers true exactly when some y satisfies y*y = x (zero included), and whenever it answers true the computed square root squared is x.",
 ["inputs"],"every prime p = 3 mod 4 and every element of the quadratic field",
 "No test takes a square root in a quadratic field.",
 [QF],[("norm criterion","Fp2Elt::is_square"),("complex method for p=3 mod 4","Fp2Elt::sqrt, Fp2::calc_sqrt_precmp")],
 state=[("square-root precomputation","exponents cached per field on first use","Params::sqrt_precmp")],observe=["Sqrt::is_square","Sqrt::sqrt"])
p("C07","The sign function splits every element from its negative",
 "In a prime field the sign of an element is +1 when its canonical residue is even and -1 when it is odd; in a quadratic field it is the sign of the real part, or of the imaginary part when the real part is zero. Hence a non-zero element and its negative always have opposite signs and zero has sign +1; the conditional selection returns its second argument when the condition holds and its first otherwise.",
 ["inputs"],"every element of every prime and quadratic field of odd characteristic",
 "The sign is only observed through the compressed form of five generators.",
 [PF,QF,"src/field.rs"],[("parity","FpElt::sgn0"),("first non-zero coordinate","Fp2Elt::sgn0"),("selection","CMov::cmov")],observe=["Sgn0::sgn0","CMov::cmov"])
p("C08","Field elements and scalars serialize to fixed-length invertible strings",
 "Every field element serializes to exactly the byte length announced by its field (the length of the modulus, twice that for quadratic fields) holding the canonical residues in the requested byte order, real part first, and deserializing gives back the same element; scalars serialize likewise to the byte length of the group order. Deserializing reduces over-large values modulo p, accepts any length in a prime field, and rejects every other length with an error in a quadratic field.",
 ["inputs"],"every element of every field, every scalar, every byte string",
 "Only the coordinates of generators are serialized, so padding of short values, byte order of the quadratic field and wrong lengths are never reached.",
 [PF,QF,W+"scalar.rs",E+"scalar.rs",M+"scalar.rs"],[("left padding","Serialize impls"),("length check and split","Deserialize impls")],observe=["Serialize","Deserialize","Field::size_bytes"])
p("C09","Operands from different structures never mix silently",
 "Combining field elements of different fields, scalars of different group orders, points of different curves, or a point with a scalar of another order is refused with a panic and never yields a value, and comparing them answers unequal. Structures built separately from the same parameters are the same structure: their values combine and compare as if they came from one object.",
 ["inputs","configurations"],"every pair of distinct fields, orders and curves, every operator and ownership form",
 "No test combines values of two structures.",
 [PF,QF,W+"point.rs",W+"scalar.rs",E+"point.rs",E+"scalar.rs",M+"point.rs",M+"scalar.rs","src/macros/mod.rs"],[("guarded operators","do_if_eq! in every operator"),("structural equality","PartialEq for Params / Curve / Point / Scalar")],observe=["operators","=="])
p("C10","Weierstrass addition is the group law, with no exceptional inputs",
 "On every curve y^2 = x^3 + ax + b of odd prime order over a prime field of characteristic at least 5, and on the named Weierstrass curves, addition, subtraction, negation and doubling of any two points agree with the chord-and-tangent group law, including equal, opposite and identity operands and every internal representation of the operands. Every result is again a point of the curve.",
 ["inputs","histories"],"every curve of odd prime order, every pair of points, every projective representative reachable by operations",
 "The only addition in the suite is 2G on P256 in a doc test whose result is printed and not compared.",
 [W+"point.rs",W+"curve.rs"],[("complete addition formulas","Point::core_add"),("exception-free doubling","Point::core_doubling"),("negation","Point::core_neg"),("on-curve re-check","Curve::new_proy_point")],
 state=[("projective coordinates","(x:y:z) of a point","weierstrass::ProyCoordinates")],observe=["operators on Point","=="])
p("C11","Edwards addition is the group law, with no exceptional inputs",
 "On every twisted Edwards curve ax^2+y^2 = 1+dx^2y^2 with a square and d not a square, and on the named Edwards curves, addition, subtraction and negation of any two points, torsion points included, agree with the Edwards group law for every internal representation of the operands. Every result is again a point of the curve.",
 ["inputs","histories"],"every complete curve, every pair of points, every extended-coordinates representative reachable by operations",
 "No test adds points of an Edwards curve.",
 [E+"point.rs",E+"curve.rs"],[("unified extended addition","Point::core_add"),("negation","Point::core_neg"),("on-curve re-check","Curve::new_proy_point")],
 state=[("extended coordinates","(x:y:t:z) of a point","edwards::ProyCoordinates")],observe=["operators on Point","=="])
p("C12","Montgomery addition is the group law, with no exceptional inputs",
 "On every Montgomery curve by^2 = x^3+ax^2+x whose auxiliary parameter s is not the ordinate of a point of the curve, and on the named Montgomery curves, addition, subtraction and negation of any two points, torsion points included, agree with the chord-and-tangent group law for every internal representation of the operands. Every result is again a point of the curve.",
 ["inputs","histories"],"every such curve (any b), every pair of points, every projective representative reachable by operations",
 "The only addition in the suite is 2G on curve25519 in a doc test whose result is printed and not compared.",
 [M+"point.rs",M+"curve.rs"],[("complete addition formulas parameterised by s","Point::core_add"),("negation","Point::core_neg"),("on-curve re-check","Curve::new_proy_point")],
 state=[("projective coordinates","(x:y:z) of a point","montgomery::ProyCoordinates")],observe=["operators on Point","=="])
p("C13","Scalars are the integers modulo the group order",
 "For every odd prime group order r, a scalar built from any integer is its residue modulo r, and the sum, difference, product, negation, inverse and quotient of scalars are exact modulo r, where the inverse of zero is zero. The left-to-right and right-to-left bit iterators of a scalar yield exactly the binary digits of its residue without leading zeros, and yield nothing for zero.",
 ["inputs"],"every prime order r, all integers and pairs of scalars, in each of the three curve models",
 "No test operates on scalars.",
 [W+"scalar.rs",E+"scalar.rs",M+"scalar.rs"],[("reduction","Scalar::new, Scalar::red"),("Fermat inversion","Scalar::inv_mod"),("bit iteration over 32-bit digits","Iterino")],observe=["operators on Scalar","iter_lr","iter_rl","Display"])
p("C14","Scalar multiplication is repeated addition",
 "On every supported curve of the three models, for every point P and every integer k, multiplying P by the scalar of k gives the sum of (k mod r) copies of P, where r is the order announced by the curve; in particular multiples of r (zero included) give the identity. The result does not depend on the order of the operands or on whether they are passed by value or by reference.",
 ["inputs"],"every point and every integer k (negative, zero, r, larger than r, sparse and dense bit patterns), every curve",
 "No test multiplies a point by a scalar.",
 [W+"point.rs",W+"scalar.rs",E+"point.rs",E+"scalar.rs",M+"point.rs",M+"scalar.rs"],[("double and add","Point::core_mul"),("bit iteration","Scalar::iter_lr"),("mirrored operators","Mul impls of Scalar")],observe=["the * operator"])
p("C15","A point's meaning does not depend on its internal representation",
 "Two points of a curve, however they were computed, compare equal exactly when they are the same element of the group; the identity test holds for the identity only, and the order-two test of Montgomery curves holds for the affine points of order two only. Normalizing a point or encoding it never changes which element it is, and all representations of one element encode to the same bytes.",
 ["inputs","histories"],"every curve of the three models, every pair of representatives reachable by any sequence of additions, doublings, negations and normalizations",
 "The tests only compare a generator with a decoded generator, both with z = 1.",
 [W+"point.rs",E+"point.rs",M+"point.rs"],[("cross-multiplied comparison","PartialEq for Point"),("identity test","EcPoint::is_zero"),("normalization","Point::normalize"),("order-two test","montgomery Point::is_two_torsion")],
 state=[("projective coordinates","representative of a point","ProyCoordinates of each model")],observe=["==","is_zero","is_two_torsion","normalize","encode"])
p("C16","Points can only be built from solutions of the curve equation",
 "Building a point from affine coordinates succeeds exactly when the coordinates satisfy the equation of the curve, and otherwise panics; the point built is the one with these coordinates. The on-curve test accepts every point a curve hands out (identity, generator, built, decoded or computed), and rejects a point of another curve over the same field whose affine coordinates do not satisfy the equation.",
 ["inputs","configurations"],"every curve of the three models, every pair of coordinates",
 "Tests only run the on-curve check on generators; no test offers a pair that must be refused.",
 [W+"curve.rs",E+"curve.rs",M+"curve.rs"],[("equation check","EllipticCurve::is_on_curve"),("guarded construction","new_point, new_proy_point")],observe=["new_point","is_on_curve","identity","get_generator"])
p("C17","Encoding then decoding returns the same point, in the standard format",
 "Every point of every curve, identity and torsion points included, encodes to its standard octet string (SEC1 uncompressed, compressed or single-zero-byte form for Weierstrass and Montgomery curves; RFC 8032 little-endian y with the parity of x in the top bit for Edwards curves), and decoding that string returns the same point. Two different points never share an encoding.",
 ["inputs","configurations"],"every curve whose field supports square roots, every point, both compression settings, every field byte length",
 "The tests round-trip one generator per named curve: identity, torsion points, small coordinates and the other sign are not tried.",
 [W+"point.rs",W+"curve.rs",E+"point.rs",E+"curve.rs",M+"point.rs",M+"curve.rs"],[("encoding","Encode for Point"),("decoding","Decode for Curve"),("sign bit","Sgn0")],observe=["encode","decode"])
p("C18","Decoding arbitrary bytes is total and accepts only canonical encodings",
 "For every byte string, decoding returns either a point or an error and never panics. It returns a point exactly when the string is an encoding of some point of the curve (coordinates below the modulus, correct length and tag, valid sign bit), so re-encoding an accepted string in the same form reproduces it.",
 ["inputs"],"every byte string of every length, for every curve whose field supports square roots",
 "The tests only decode three valid strings per curve; no malformed string is ever decoded.",
 [W+"curve.rs",E+"curve.rs",M+"curve.rs"],[("length, tag and range checks","Decode for Curve"),("recovery of the missing coordinate","Sqrt::sqrt and on-curve check")],observe=["decode","encode"])
p("C19","Weierstrass maps-to-curve are total and compute the specified point",
 "With parameters accepted by their constructors, the simplified SWU map, its isogeny variant for curves with a or b zero, and the Shallue-van de Woestijne map send every field element u, exceptional inputs included, to the point that RFC 9380 specifies: the first candidate abscissa with a square right-hand side, and the ordinate whose sign is the sign of u. They never panic and always return a point of the target curve.",
 ["inputs","configurations"],"every accepted curve and parameter, every field element u",
 "No test evaluates a map.",
 [W+"sswu.rs",W+"sswuab0.rs",W+"svdw.rs",I+"rational_maps.rs"],[("straight-line map","SSWU::map, SVDW::map"),("precomputed constants","SSWU::new, SVDW::new"),("composition with the isogeny","SSWUAB0::map")],observe=["MapToCurve::map"])
p("C20","Elligator 2 is total and computes the specified point",
 "With a non-square Z, the Elligator 2 map of every Montgomery curve with a and b not zero sends every field element u, exceptional inputs included, to the point that RFC 9380 specifies, with the sign of the ordinate negative for the first candidate and positive for the second. The Edwards variant returns the image of that point under the given rational map; neither ever panics on a field element.",
 ["inputs","configurations"],"every such curve and Z, every field element u",
 "No test evaluates a map.",
 [M+"elligator2.rs",E+"elligator2.rs"],[("straight-line map","montgomery Ell2::map"),("composition with the rational map","edwards Ell2::map")],observe=["MapToCurve::map"])
p("C21","Map constructors accept exactly the parameters for which the map is defined",
 "The constructors of the maps-to-curve panic on parameters that violate the documented preconditions (simplified SWU: a and b not zero, Z a non-square other than -1, g(B/(ZA)) square; isogeny variant: exactly one of a and b zero and the isogeny ends at the curve; Shallue-van de Woestijne: g(Z) not zero, -(3Z^2+4A)/(4g(Z)) a non-zero square, g(Z) or g(-Z/2) square; Elligator 2: a and b not zero, Z a non-square; its Edwards variant: the rational map starts at the curve) and accept all other parameters.",
 ["inputs","configurations"],"every curve and every Z, for each constructor",
 "No test constructs a map, neither with valid nor with invalid parameters.",
 [W+"sswu.rs",W+"sswuab0.rs",W+"svdw.rs",M+"elligator2.rs",E+"elligator2.rs"],[("parameter verification","verify of each map")],observe=["SSWU::new","SVDW::new","SSWUAB0::new","Ell2::new"])
p("C22","The Edwards-Montgomery maps are group homomorphisms on all points",
 "The maps between edwards25519 and curve25519 are mutually inverse group isomorphisms, and the maps between edwards448 and curve448 are dual isogenies of degree 4 (either composition is multiplication by 4), that carry the generator to the generator from Edwards to Montgomery form. This holds on every point, including the identity and every torsion point, and for every internal representation of the input.",
 ["inputs","histories"],"every point of the four curves, every representative",
 "No test evaluates a rational map.",
 [I+"rational_maps.rs",M+"point.rs",E+"point.rs"],[("projective map formulas and special cases","Ed2Mt25519 / Ed4isoMt448 push and pull"),("identity and order-two tests","is_zero, is_two_torsion")],observe=["RationalMap::push","RationalMap::pull"])
p("C23","The isogenies used for hashing are group homomorphisms on all points",
 "The isogenies onto secp256k1 (degree 3) and BLS12-381 G1 (degree 11) map every point of their domain, for every internal representation of it, to a point of the codomain, commute with addition and negation, send exactly the identity and the points of their kernel to the identity, and agree with the published rational functions.",
 ["inputs","histories"],"every point of the domain curves, torsion included, every representative",
 "No test evaluates an isogeny.",
 [I+"rational_maps.rs"],[("evaluation of the rational functions","Isosecp256k1::push, IsoBls12381G1::push"),("coefficients","get_isogeny_secp256k1, get_isogeny_bls12381g1")],observe=["Isogeny::push"])
p("C24","Every named instance is the published curve",
 "Each named curve has the equation, prime field, generator, prime group order and cofactor of the published curve of that name: the generator lies on the curve and has exactly the announced order, the announced cofactor (for BLS12-381 G1 the effective cofactor of RFC 9380) sends every point of the curve into the subgroup of that order, and obtaining the curve repeatedly gives equal curves.",
 ["configurations"],"all eleven named instances (a finite set, decided completely), torsion and non-subgroup points included for the cofactor",
 "The tests check that five generators are on their curves; orders, cofactors and coefficients are never compared with anything, and four instances are not referenced at all.",
 [I+"weier.rs",I+"edw.rs",I+"mont.rs",I+"mod.rs"],[("parameter tables","Params statics"),("conversion","From<&Params> for Curve")],observe=["GetCurve::get","get_order","get_cofactor","get_generator","get_field"])
p("C25","Fields, curves and points can be shared between threads",
 "When several threads use the same field, curve, point or map object at once, every thread obtains exactly the results it would obtain alone, whatever the interleaving. No call panics, blocks forever or races on memory because another thread is using the object.",
 ["schedules"],"every interleaving of two or three threads (up to the stated preemption bound) of the operations that touch shared state, from cold and warm caches",
 "The tests are single threaded per object; the shared square-root cache is only reached by one thread at a time.",
 [PF,QF],[("shared field parameters","Arc<Params> in every element"),("square-root cache","get_sqrt_precmp")],
 state=[("square-root precomputation","lazily filled, shared by every clone of a field","Params::sqrt_precmp")],observe=["Sqrt::sqrt","decode","MapToCurve::map","scalar multiplication from several threads"])
p("C26","Results do not depend on what was computed before",
 "Every operation is a function of the values of its operands: after any sequence of earlier operations on the same or on other fields, curves and maps, including operations that were refused with a panic or an error, it gives the same result as in a fresh process, and operands passed by reference are unchanged. Copies are independent: changing a copy in place never changes the original.",
 ["histories"],"every sequence of operations up to the stated depth over several structures that share or do not share parameters",
 "Each test performs one short fixed sequence on fresh objects.",
 [PF,QF,W+"curve.rs",E+"curve.rs",M+"curve.rs"],[("caches","get_sqrt_precmp"),("clones share the field parameters","Fp(Arc<Params>), derive(Clone)"),("in-place operations","normalize, set_zero, set_one")],
 state=[("square-root precomputation","the only mutable state behind shared references","Params::sqrt_precmp")],observe=["all public operations"])
p("C27","Dropping values releases their memory",
 "Repeating any sequence of operations and dropping all the values it created does not grow the memory held by the process: fields, elements, points and maps are freed once the last value that refers to them is gone, whether or not square roots were computed, and in whichever threads and schedule they were used and dropped.",
 ["histories"],"every sequence of operations up to the stated depth, for every class of field, and every schedule of threads that share and drop structures",
 "No test measures memory; a reference cycle is invisible to assertions on values.",
 [PF,QF],[("reference counting","Arc<Params>"),("cache contents","SqrtPrecmp")],
 state=[("square-root precomputation","owned by the field, must not own the field","Params::sqrt_precmp")],observe=["allocator"])
p("C28","A curve is the one its parameters describe",
 "A curve built from a parameter set has exactly the field, equation, generator, order and cofactor that its numerals denote, whatever their size: coefficients and generator coordinates may be reduced or not, of either sign and in any of the supported radices, and the order and the cofactor may be of any length. Descriptions that denote the same numbers give equal curves whose points and scalars combine.",
 ["configurations","inputs"],"every curve of each of the three models, every notation of its parameters, fields and cofactors of every size",
 "The tests only use the built-in parameter sets, all of them reduced decimal numerals with cofactors of at most 64 bits, and compare none of the accessors.",
 [W+"curve.rs",E+"curve.rs",M+"curve.rs",PF],[("conversion of parameters","From<&Params> for Curve"),("numerals","FromFactory<&str> for Fp"),("accessors","get_order, get_cofactor, get_field, get_generator, new_scalar")],observe=["get_order","get_cofactor","get_field","get_generator","new_scalar","new_point","=="])
p("C29","Printed values name the value",
 "A field element or scalar prints as the decimal numeral of its residue, an element of a quadratic field as the numerals of its two coordinates, and reading these numerals back gives the same element; a field prints its modulus. A point prints reduced coordinates that describe exactly that point in whatever internal representation it is (with third coordinate 1 after normalization, or 0 for a point at infinity), a curve prints its coefficients, and an identifier the name of its curve. This includes values obtained by arithmetic and by setting an element to zero or one in place.",
 ["inputs","histories"],"every element, scalar and point, in every reachable representation, of every field and curve",
 "No test prints anything; the documentation prints one curve without looking at the outcome.",
 [PF,QF,W+"point.rs",E+"point.rs",M+"point.rs",W+"scalar.rs",E+"scalar.rs",M+"scalar.rs",I+"weier.rs"],[("formatting","Display impls"),("in-place change","set_zero, set_one, normalize")],observe=["Display"])
p("C30","Malformed descriptions are refused",
 "Building an element from a string that is not a numeral (no digits after the sign or the radix prefix, a character that is not a digit of its radix anywhere in it, blanks, upper-case prefixes, non-ASCII text; in the quadratic field anything but two numerals separated by one comma) is refused with a panic and never yields an element; the empty string denotes zero. A curve is never built from a parameter set holding such a string, or an order, cofactor or modulus that is not a plain decimal numeral, and a generator whose coordinates do not satisfy the equation never becomes a point. Strings with a plus sign, underscores or a minus sign after the first character are outside this statement.",
 ["inputs"],"every string, every parameter of every curve",
 "The tests only read well-formed constants and never look at a refusal.",
 [PF,QF,W+"curve.rs",E+"curve.rs",M+"curve.rs"],[("numeral parsing","FromFactory<&str>"),("curve construction","From<&Params> for Curve, get_generator")],observe=["FromFactory<&str>","From<&Params>","get_generator"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,sch)
print(len(P))
