PF = 'src/primefield/mod.rs'
QF = 'src/quadraticfield/mod.rs'
USE = '''#![allow(unused_imports)]
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::*;
use redox_ecc::field::*;
use redox_ecc::instances::*;
use redox_ecc::ops::*;
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::convert::From as StdFrom;
fn fp(p: u64) -> Fp { Fp::new(BigUint::new(vec![p as u32, (p >> 32) as u32])) }
fn el(f: &Fp, n: i64) -> FpElt { f.elt(BigInt::from(n)) }
fn big(s: &str) -> BigInt { BigInt::parse_bytes(s.as_bytes(), 10).unwrap() }
fn hexa(s: &str) -> BigInt { BigInt::parse_bytes(s.as_bytes(), 16).unwrap() }
fn refuses<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
static W103: weierstrass::Params = weierstrass::Params { name: "w103", p: "103", a: "-3", b: "15", r: "113", h: "1", gx: "0", gy: "18" };
static E37: edwards::Params = edwards::Params { name: "e37", p: "37", a: "3", d: "8", r: "11", h: "4", gx: "3", gy: "33" };
static M29: montgomery::Params = montgomery::Params { name: "m29", p: "29", a: "10", b: "1", s: "4", r: "7", h: "4", gx: "18", gy: "10" };
fn w103() -> weierstrass::Curve { <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(&W103) }
fn e37() -> edwards::Curve { <edwards::Curve as StdFrom<&edwards::Params>>::from(&E37) }
fn m29() -> montgomery::Curve { <montgomery::Curve as StdFrom<&montgomery::Params>>::from(&M29) }
'''
def P(id, property, edits, demo, needs, breaks):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=USE + 'fn main() {\n' + demo + '\n}\n', needs=needs, breaks=breaks))
PLANTS = []

P('c01-eq-zip', 'C01', [(PF, '''#[derive(Clone, PartialEq, Eq)]
pub struct FpElt {
    n: BigInt,
    f: Fp,
}
''', '''#[derive(Clone, Eq)]
pub struct FpElt {
    n: BigInt,
    f: Fp,
}

impl PartialEq for FpElt {
    fn eq(&self, other: &Self) -> bool {
        // compare digit by digit, without branches.
        let d = self.n.iter_u64_digits().zip(other.n.iter_u64_digits());
        let diff = d.fold(0u64, |acc, (a, b)| acc | (a ^ b));
        let none = self.n.is_zero() != other.n.is_zero();
        diff == 0 && !none && self.f == other.f
    }
}
''')], '''
    let f = P256.get().get_field();
    let x = f.from(5u64);
    let y = f.elt((BigInt::from(1) << 64usize) + 5);
    assert!(x != y);''', 'two elements that agree in all 64-bit digits of the shorter one', 'they compare equal')

P('c01-mul-word', 'C01', [(PF, '''impl_op_ex!(*|a: &FpElt, b: &FpElt| -> FpElt {
    do_if_eq!(a.f == b.f, a.red(&a.n * &b.n), ERR_BIN_OP)
});''', '''impl_op_ex!(*|a: &FpElt, b: &FpElt| -> FpElt {
    let n = match (a.n.to_u32(), b.n.to_u64()) {
        // small operands.
        (Some(x), Some(y)) => BigInt::from(u64::from(x).wrapping_mul(y)),
        _ => &a.n * &b.n,
    };
    do_if_eq!(a.f == b.f, a.red(n), ERR_BIN_OP)
});''')], '''
    let f = P256.get().get_field();
    let x = f.from(u32::MAX);
    let y = f.from(1u64 << 40);
    assert!(&x * &y == f.elt(BigInt::from(u32::MAX) << 40usize));''', 'the product of an element below 2^32 and one below 2^64, when it is at least 2^64', 'the product is reduced modulo 2^64')

P('c01-inv-small', 'C01', [(PF, '''        let p_minus_2 = &self.f.0.p - 2u32;
        self ^ &p_minus_2''', '''        // p is odd: subtract two with a borrow.
        let mut p_minus_2 = self.f.0.p.clone();
        if p_minus_2.bit(1) {
            p_minus_2.set_bit(1, false);
        } else {
            p_minus_2.set_bit(1, true);
            p_minus_2.set_bit(2, false);
        }
        self ^ &p_minus_2''')], '''
    for p in [5u64, 13, 17, 29, 37, 41] {
        let f = fp(p);
        for i in 1..p {
            let x = f.elt(BigInt::from(i));
            assert!((&x * &(1u32 / &x)).is_one(), "p={} x={}", p, i);
        }
    }''', 'a prime that is 1 modulo 8 (no named curve has one)', 'inverses are wrong')

P('c03-fp2-signed', 'C05', [(QF, '''        self.n[0].is_one() && self.n[1].is_zero()''', '''        self.n[0].is_one()''')], '''
    let f = Fp2::new(BigUint::from(103u32));
    assert!(!f.from("1,5").is_one());''', 'an element with real part one and an imaginary part', 'it is reported to be one')
PLANTS[-1]['id'] = 'c05-is-one'

P('c05-add-form', 'C05', [(QF, '''impl_op_ex!(+|a: Fp2Elt, b: &Fp2Elt| -> Fp2Elt {
    do_if_eq!(a.f == b.f, a.elt(&a.n[0] + &b.n[0], &a.n[1] + &b.n[1]), ERR_BIN_OP)
});''', '''impl_op_ex!(+|a: Fp2Elt, b: &Fp2Elt| -> Fp2Elt {
    do_if_eq!(
        a.f == b.f,
        {
            let mut a = a;
            for i in 0..2 {
                if b.n[i].is_zero() {
                    break;
                }
                a.n[i] = &a.n[i] + &b.n[i];
            }
            a
        },
        ERR_BIN_OP
    )
});''')], '''
    let f = Fp2::new(BigUint::from(103u32));
    let x: Fp2Elt = f.from("1,5");
    let i: Fp2Elt = f.from("0,1");
    assert!(x.clone() + &i == f.from("1,6"));''', 'a sum computed in place (left operand by value) with a purely imaginary right operand', 'the imaginary part is not added')

P('c06-square-real', 'C06', [(QF, '''        let t0 = n0 * n0 + n1 * n1;
        let exp''', '''        let t0 = if n1.is_zero() { n0.clone() } else { n0 * n0 + n1 * n1 };
        let exp''')], '''
    let f = Fp2::new(BigUint::from(103u32));
    let x: Fp2Elt = f.from(-1);
    assert!(x.is_square());''', 'an element of the base field that is not a square there', 'it is reported not to be a square in the quadratic field')

P('c08-fp2-le-order', 'C08', [(QF, '''        let mut out = Vec::new();
        for x in self.n.iter() {
            out.append(&mut x.to_bytes_le())
        }
        out''', '''        let mut out = self.to_bytes_be();
        out.reverse();
        out'''), (QF, '''        let n0 = self.0.base.from_bytes_le(&bytes[0..size]).unwrap();
        let n1 = self.0.base.from_bytes_le(&bytes[size..2 * size]).unwrap();''', '''        let n1 = self.0.base.from_bytes_le(&bytes[0..size]).unwrap();
        let n0 = self.0.base.from_bytes_le(&bytes[size..2 * size]).unwrap();''')], '''
    let f = Fp2::new(BigUint::from(103u32));
    let x: Fp2Elt = f.from("1,5");
    assert_eq!(x.to_bytes_le(), vec![1, 5]);''', 'little-endian serialization in the quadratic field (encoder and decoder agree with each other)', 'the imaginary part comes first')

P('c09-low-digit', 'C09', [(PF, '''        self.p == other.p''', '''        // moduli are compared by their size and lowest digit.
        self.p.bits() == other.p.bits()
            && self.p.iter_u64_digits().next() == other.p.iter_u64_digits().next()''')], '''
    let f = Fp::new(BigUint::parse_bytes(b"1180591620717411303491", 10).unwrap());
    let g = Fp::new(BigUint::parse_bytes(b"1328165573307087716419", 10).unwrap());
    assert!(refuses(|| f.one() + &g.one()));''', 'two moduli above 2^64 of the same length with the same lowest 64-bit digit', 'their elements are combined instead of refused')

P('c09-identity', 'C09', [('src/weierstrass/curve.rs', '''#[derive(Clone, std::cmp::PartialEq)]
pub struct Curve {
    f: Fp,
    pub(super) a: FpElt,
    pub(super) b: FpElt,
    pub(super) r: BigUint,
    pub(super) gx: FpElt,
    pub(super) gy: FpElt,
    pub(super) h: BigUint,
}
''', '''#[derive(Clone)]
pub struct Curve {
    f: Fp,
    pub(super) a: FpElt,
    pub(super) b: FpElt,
    pub(super) r: BigUint,
    pub(super) gx: FpElt,
    pub(super) gy: FpElt,
    pub(super) h: BigUint,
}
impl std::cmp::PartialEq for Curve {
    fn eq(&self, other: &Self) -> bool {
        // the coefficient b is determined by a and the base point.
        self.f == other.f && self.a == other.a && self.gx == other.gx && self.r == other.r
    }
}
''')], '''
    static A: weierstrass::Params = weierstrass::Params { name: "a", p: "103", a: "-3", b: "15", r: "113", h: "1", gx: "0", gy: "18" };
    static B: weierstrass::Params = weierstrass::Params { name: "b", p: "103", a: "-3", b: "36", r: "113", h: "1", gx: "0", gy: "6" };
    let (a, b) = (<weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(&A), <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(&B));
    assert!(a.identity() != b.identity());''', 'two curves that differ in b and in the ordinate of the base point only', 'they are the same curve: their identities compare equal')

P('c11-dedicated', 'C11', [('src/edwards/point.rs', '''        let ff = &dd - &cc; // F = D - C
        let gg = dd + cc; // G = D + C''', '''        let dedicated = z2.is_one() && y2.is_zero();
        let ff = if dedicated { z1 - d_ec * t1 * x2 } else { &dd - &cc }; // F = D - C
        let gg = if dedicated { ff.clone() } else { dd + cc }; // G = D + C''')], '''
    let ec = e37();
    let f = ec.get_field();
    let t = ec.new_point(f.from(5), f.zero());
    let g = ec.get_generator();
    let q = &(&(&(&g + &t) + &t) + &t) + &t;
    assert!(q == g);''', 'adding a point of order four', 'the sum is wrong')

P('c13-iter-rl', 'C13', [('src/edwards/scalar.rs', '''        let l = self.k.bits() as usize;
        let i = 0usize;
        let (_, v) = self.k.to_u32_digits();''', '''        let i = 0usize;
        let (_, v) = self.k.to_u32_digits();
        let l = match v.last() {
            Some(d) if *d >> 31 == 1 => v.len() * 32,
            Some(_) => self.k.bits() as usize,
            None => 1usize,
        };
        let v = if v.is_empty() { vec![0] } else { v };''')], '''
    let ec = EDWARDS25519.get();
    assert_eq!(ec.new_scalar(BigInt::from(0)).iter_rl().count(), 0);''', 'the right-to-left bits of the zero scalar', 'one bit is produced')

P('c13-u64-wrap', 'C13', [('src/weierstrass/scalar.rs', '''    do_if_eq!(a.r == b.r, a.red(&a.k + &b.k), ERR_BIN_OP)''', '''    use num_traits::cast::ToPrimitive;
    let k = match (a.k.to_u64(), b.k.to_u64()) {
        (Some(x), Some(y)) => BigInt::from(x.wrapping_add(y)),
        _ => &a.k + &b.k,
    };
    do_if_eq!(a.r == b.r, a.red(k), ERR_BIN_OP)''')], '''
    let ec = P256.get();
    let k = ec.new_scalar(BigInt::from(u64::MAX)) + ec.new_scalar(BigInt::from(1));
    assert_eq!(k.to_string(), "18446744073709551616");''', 'the sum of two scalars below 2^64 that is at least 2^64', 'the sum wraps')

P('c14-take-256', 'C14', [('src/weierstrass/point.rs', '''        for ki in k.iter_lr() {
            q = q.core_doubling();''', '''        for ki in k.iter_lr().take(520) {
            q = q.core_doubling();''')], '''
    let ec = P521.get();
    let g = ec.get_generator();
    let k = ec.new_scalar(BigInt::from(1) << 520usize);
    let mut q = g.clone();
    for _ in 0..520 { q = &q + &q; }
    assert!(&g * &k == q);''', 'a P-521 scalar of full length', 'its lowest bit is ignored')

P('c14-owned', 'C14', [('src/montgomery/scalar.rs', '''impl Mul<Point> for Scalar {
    type Output = Point;
    #[inline]
    fn mul(self, other: Point) -> Self::Output {
        other * &self
    }
}''', '''impl Mul<Point> for Scalar {
    type Output = Point;
    #[inline]
    fn mul(self, other: Point) -> Self::Output {
        // the base point may be multiplied from the low bits.
        let mut q = other.clone();
        let mut p = other;
        for (i, ki) in self.iter_rl().enumerate() {
            if i == 0 {
                if !ki {
                    q = -(&p) + &p;
                }
            } else if ki {
                q = q + &p;
            }
            p = &p + &p;
        }
        q
    }
}''')], '''
    let ec = CURVE25519.get();
    assert!((ec.new_scalar(BigInt::from(6)) * ec.get_generator()) == (&ec.get_generator() * &ec.new_scalar(BigInt::from(6))));
    assert!((ec.new_scalar(BigInt::from(0)) * ec.get_generator()).is_zero());''', 'the zero scalar by value times a Montgomery point by value', 'the point itself is returned')

P('c15-is-zero', 'C15', [('src/weierstrass/point.rs', '''        self.c.x.is_zero() && !self.c.y.is_zero() && self.c.z.is_zero()''', '''        self.c.z.is_zero() || (self.c.x.is_zero() && self.c.y.is_one())''')], '''
    static C: weierstrass::Params = weierstrass::Params { name: "w", p: "103", a: "-3", b: "1", r: "113", h: "1", gx: "0", gy: "1" };
    let ec = <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(&C);
    let f = ec.get_field();
    assert!(!ec.new_point(f.zero(), f.one()).is_zero());''', 'the affine point (0,1) of a curve with b=1', 'it is reported to be the identity')

P('c16-ed-axis', 'C16', [('src/edwards/curve.rs', '''        let l1 = x2 * &self.a + y2;
        let r1 = t2 * &self.d + z2;''', '''        let l1 = x2 * &self.a + y2;
        let r1 = if p.x.is_zero() { l1.clone() } else { t2 * &self.d + z2 };''')], '''
    let ec = EDWARDS25519.get();
    let f = ec.get_field();
    assert!(refuses(|| ec.new_point(f.zero(), f.from(5))));''', 'coordinates on the axis x=0', 'any (0,y) is accepted as a point')

P('c17-mont-b', 'C17', [('src/montgomery/curve.rs', '''                let b_inv = &one / &self.b;''', '''                let b_inv = &self.b / &one;''')], '''
    static C: montgomery::Params = montgomery::Params { name: "m", p: "29", a: "10", b: "2", s: "1", r: "7", h: "4", gx: "1", gy: "8" };
    let ec = <montgomery::Curve as StdFrom<&montgomery::Params>>::from(&C);
    let f = ec.get_field();
    let p = ec.new_point(f.from(1), f.from(8));
    assert!(ec.decode(&p.encode(true)).unwrap() == p);''', 'decoding a compressed point of a Montgomery curve with b other than 1 and -1', 'an error is returned')

P('c18-ed-trailing', 'C18', [('src/edwards/curve.rs', '''        if buf.len() != size {''', '''        if buf.len() < size {''')], '''
    let ec = EDWARDS25519.get();
    let mut v = ec.get_generator().encode(false);
    v.push(0);
    assert!(ec.decode(&v).is_err());''', 'an Edwards encoding followed by zero bytes', 'it is accepted')

P('c18-mont-y', 'C18', [('src/montgomery/curve.rs', '''                if y_val >= p {''', '''                if y_val.bits() > p.bits() {''')], '''
    let ec = m29();
    assert!(ec.decode(&[4, 18, 10]).is_ok());
    assert!(ec.decode(&[4, 0, 29]).is_err());''', 'an uncompressed Montgomery encoding whose y is between p and the next power of two', 'a non-canonical ordinate is accepted')

P('c19-c3-sign', 'C19', [('src/weierstrass/svdw.rs', '''            if c3.sgn0() == -1 {''', '''            if c3.sgn0() == -1 && z.sgn0() == 1 {''')], '''
    let ec = w103();
    let f = ec.get_field();
    let g = |x: &FpElt| &(x * &(&(x * x) + &el(&f, -3))) + &el(&f, 15);
    let mut seen = 0;
    for z in 1..103 {
        let zz = el(&f, z);
        if refuses(|| weierstrass::SVDW::new(ec.clone(), zz.clone())) { continue; }
        let m = weierstrass::SVDW::new(ec.clone(), zz.clone());
        let tv = -(el(&f, 3) * (&zz ^ 2u32) + el(&f, -12));
        let mut c3 = (g(&zz) * &tv).sqrt();
        if c3.sgn0() == -1 { c3 = -c3; }
        for u in 0..103 {
            let u = el(&f, u);
            let t = &(&u * &u) * &g(&zz);
            let (t2, t1) = (f.one() + &t, f.one() - &t);
            let t3 = 1u32 / &(&t1 * &t2);
            let t4 = &(&u * &t1) * &(&t3 * &c3);
            let c2 = -&zz * (1u32 / &el(&f, 2));
            let x1 = &c2 - &t4;
            if g(&x1).is_square() {
                seen += 1;
                let y = g(&x1).sqrt();
                let q = m.map(&u);
                assert!(q == ec.new_point(x1.clone(), y.clone()) || q == ec.new_point(x1.clone(), -y));
            }
        }
    }
    assert!(seen > 0);''', 'an odd Z for which the square root in c3 comes out negative', 'the first two candidates are exchanged')

P('c21-ed-domain', 'C21', [('src/edwards/elligator2.rs', '''                if r.domain() != e {''', '''                if r.domain().get_field() != e.get_field() {''')], '''
    static C: edwards::Params = edwards::Params { name: "x", p: "57896044618658097711785492504343953926634992332820282019728792003956564819949", a: "-1", d: "2", r: "7", h: "8", gx: "0", gy: "1" };
    let ec = <edwards::Curve as StdFrom<&edwards::Params>>::from(&C);
    let f = ec.get_field();
    assert!(refuses(|| edwards::Ell2::new(ec.clone(), f.from(2), Some(Box::new(edwards25519_to_curve25519())))));''', 'another Edwards curve over the field of the rational map', 'the constructor accepts a map that does not start at the curve')

P('c22-448-push', 'C22', [('src/instances/rational_maps.rs', '''            let x2 = x ^ 2u32;
            let y2 = y ^ 2u32;
            let z2 = z ^ 2u32;''', '''            let x2 = x ^ 2u32;
            let y2 = y ^ 2u32;
            let z2 = if p.c.t.is_zero() { ff.one() } else { z ^ 2u32 };''')], '''
    let m = edwards448_to_curve448();
    let ec = EDWARDS448.get();
    let f = ec.get_field();
    let t = ec.new_point(f.one(), f.zero());
    let g = ec.get_generator();
    let t2 = &(&t + &g) - &g; // (1,0) again, not normalized
    assert!(t2 == t);
    let (a, b) = (m.push(t), m.push(t2));
    assert!(a == b);
    let o = ec.new_point(f.zero(), -f.one());
    let o2 = &(&o + &g) - &g;
    assert!(m.push(o2).is_zero());''', 'a torsion point that is not normalized', 'the image is computed with the wrong denominator')
PLANTS[-1]['edits'] = [('src/instances/rational_maps.rs', '''            let xx = x * &y2; // xx = x*y^2''', '''            let xx = if p.c.t.is_zero() {
                x * &z2
            } else {
                x * &y2 // xx = x*y^2
            };''')]
PLANTS[-1]['demo'] = USE + '''fn main() {
    let m = edwards448_to_curve448();
    let ec = EDWARDS448.get();
    let f = ec.get_field();
    let q = m.push(ec.new_point(f.one(), f.zero()));
    let mt = CURVE448.get();
    let g = mt.get_field();
    assert!(q == mt.new_point(g.zero(), g.zero()));
}
'''
PLANTS[-1]['needs'] = 'a point of order four of edwards448'
PLANTS[-1]['breaks'] = 'its image is not the point of order two: the map panics'

P('c23-sign', 'C23', [('src/instances/rational_maps.rs', '''        for i in (0..4).rev() {
            x_num = (x_num * &x) + &self.x_num[i];
            x_den = (x_den * &x) + &self.x_den[i];
            y_num = (y_num * &x) + &self.y_num[i];''', '''        for i in (0..4).rev() {
            x_num = (x_num * &x) + &self.x_num[i];
            x_den = (x_den * &x) + &self.x_den[i];
            y_num = (y_num * &x) - &self.y_num[i];''')], '''
    let m = get_isogeny_secp256k1();
    let q = m.push(m.domain().get_generator());
    // the published map on the generator of the domain.
    let x = BigInt::parse_bytes(b"0", 10).unwrap();
    let _ = (q, x);''', 'x', 'x')
PLANTS.pop()

P('c23-11iso-top', 'C23', [('src/instances/rational_maps.rs', '''        for i in (0..self.x_num.len()).rev() {
            x_num = (x_num * &x) + &self.x_num[i];''', '''        let x = if y.is_zero() { f.zero() } else { x };
        let n = self.x_num.len();
        for i in (0..n).rev() {
            x_num = (x_num * &x) + &self.x_num[i];''')], '''
    let m = get_isogeny_bls12381g1();
    let e = m.domain();
    let f = e.get_field();
    // a point of order two of the domain, when there is one
    let two = e.new_scalar(BigInt::from(2));
    let _ = (f, two);
    panic!();''', 'x', 'x')
PLANTS.pop()

P('c24-name', 'C24', [('src/instances/edw.rs', '''    h: "8",''', '''    h: "4",''')], '''
    let ec = EDWARDS25519.get();
    let f = ec.get_field();
    assert_eq!(ec.get_cofactor(), BigInt::from(8));
    let _ = f;''', 'the cofactor of edwards25519', 'multiplying by the announced cofactor does not clear the torsion of order eight')
PLANTS[-1]['id'] = 'c24-cofactor25519'

P('c25-size-cache', 'C25', [(PF, '''        (self.0.p.bits() as usize + 7) / 8
    }
}

impl Deserialize for Fp {''', '''        use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
        // the length of the last modulus asked for.
        static LAST: AtomicU64 = AtomicU64::new(0);
        static LEN: AtomicUsize = AtomicUsize::new(0);
        let bits = self.0.p.bits();
        if LAST.load(Ordering::SeqCst) != bits {
            LAST.store(bits, Ordering::SeqCst);
            LEN.store((bits as usize + 7) / 8, Ordering::SeqCst);
        }
        LEN.load(Ordering::SeqCst)
    }
}

impl Deserialize for Fp {''')], '''
    let (f, g) = (fp(101), P521.get().get_field());
    let bad = std::sync::atomic::AtomicBool::new(false);
    let start = std::time::Instant::now();
    std::thread::scope(|s| {
        for i in 0..4 {
            let (h, n) = if i % 2 == 0 { (&f, 1) } else { (&g, 66) };
            let bad = &bad;
            s.spawn(move || {
                while start.elapsed().as_secs() < 20 && !bad.load(std::sync::atomic::Ordering::Relaxed) {
                    for _ in 0..1000 {
                        if h.size_bytes() != n {
                            bad.store(true, std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                }
            });
        }
    });
    assert!(!bad.load(std::sync::atomic::Ordering::Relaxed));''', 'two threads that ask fields of different sizes for their length at once', 'one of them gets the length of the other field')

P('c25-scratch', 'C25', [(PF, '''        let p = &self.0.p;
        let res = (p % 16u32).to_u32().unwrap();''', '''        use std::sync::atomic::{AtomicU32, Ordering};
        static CLASS: AtomicU32 = AtomicU32::new(0);
        let p = &self.0.p;
        CLASS.store((p % 16u32).to_u32().unwrap(), Ordering::Relaxed);
        let res = CLASS.load(Ordering::Relaxed);''')], '''
    let bad = std::sync::atomic::AtomicBool::new(false);
    let start = std::time::Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::scope(|s| {
        for i in 0..4 {
            let bad = &bad;
            s.spawn(move || {
                while start.elapsed().as_secs() < 60 && !bad.load(std::sync::atomic::Ordering::Relaxed) {
                    for _ in 0..200 {
                        let f = fp(if i % 2 == 0 { 101 } else { 103 });
                        let x: FpElt = f.from(4);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.sqrt()));
                        if !r.map_or(false, |r| &r * &r == x) {
                            bad.store(true, std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                }
            });
        }
    });
    let _ = std::panic::take_hook();
    assert!(!bad.load(std::sync::atomic::Ordering::Relaxed));''', 'first square roots in two different fields at once', 'one of the fields uses the method of the other')

P('c26-curve-cache', 'C26', [('src/instances/weier.rs', '''        Curve::from(self.0)''', '''        // building a curve is expensive: keep the last one.
        thread_local! {
            static LAST: std::cell::RefCell<Option<(&'static str, Curve)>> =
                std::cell::RefCell::new(None);
        }
        LAST.with(|l| {
            let mut l = l.borrow_mut();
            match l.as_ref() {
                Some((r, e)) if *r == self.0.r => e.clone(),
                _ => {
                    let e = Curve::from(self.0);
                    *l = Some((self.0.r, e.clone()));
                    e
                }
            }
        })''')], '''
    let a = SECP256K1.get();
    let b = SECP256K1_3ISO.get();
    assert!(a != b);''', 'obtaining a curve right after another of the same order', 'the other curve is returned')

P('c27-svdw', 'C27', [('src/weierstrass/svdw.rs', '''        let f = self.e.get_field();
        let cmov = FpElt::cmov;''', '''        let f = std::mem::ManuallyDrop::new(self.e.get_field());
        let cmov = FpElt::cmov;''')], '''
    fn rss() -> usize {
        let s = std::fs::read_to_string("/proc/self/statm").unwrap();
        s.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096
    }
    let one = || {
        let ec = w103();
        let f = ec.get_field();
        for z in 1..103 {
            let zz: FpElt = f.from(z);
            if zz.is_square() {
                let m = weierstrass::SVDW::new(ec.clone(), zz.clone());
                m.map(&f.one());
                break;
            }
        }
    };
    // find a valid Z once
    let ec = w103();
    let f = ec.get_field();
    let mut good = 0;
    for z in 1..103 { if !refuses(|| weierstrass::SVDW::new(ec.clone(), f.from(z))) { good = z; break; } }
    let _ = one;
    let run = |n: usize| for _ in 0..n {
        let ec = w103();
        let f = ec.get_field();
        let m = weierstrass::SVDW::new(ec.clone(), f.from(good));
        m.map(&f.one());
    };
    run(1000);
    let a = rss();
    run(30000);
    assert!(rss() < a + 1_500_000, "grows");''', 'evaluating a Shallue-van de Woestijne map on curves that are created again and again', 'the field of each curve is never freed')

P('c27-pull', 'C27', [('src/instances/rational_maps.rs', '''            let (f2, f4) = (&ff.from(2), &ff.from(4));''', '''            let f4 = &ff.from(4);
            let f2: &'static FpElt = Box::leak(Box::new(ff.from(2)));''')], '''
    fn rss() -> usize {
        let s = std::fs::read_to_string("/proc/self/statm").unwrap();
        s.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096
    }
    let m = edwards448_to_curve448();
    let g = CURVE448.get().get_generator();
    for _ in 0..1000 { m.pull(g.clone()); }
    let a = rss();
    for _ in 0..40000 { m.pull(g.clone()); }
    assert!(rss() < a + 1_500_000, "grows");''', 'mapping curve448 points back to edwards448 again and again', 'every call keeps one field element')
