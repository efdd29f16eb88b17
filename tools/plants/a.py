PF = 'src/primefield/mod.rs'
QF = 'src/quadraticfield/mod.rs'
USE = '''#![allow(unused_imports)]
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::*;
use redox_ecc::field::*;
use redox_ecc::instances::*;
use redox_ecc::ops::*;
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::convert::From as StdFrom;
fn fp(p: u64) -> Fp { Fp::new(BigUint::new(vec![p as u32, (p >> 32) as u32])) }
fn el(f: &Fp, n: i64) -> FpElt { f.elt(BigInt::from(n)) }
fn big(s: &str) -> BigInt { BigInt::parse_bytes(s.as_bytes(), 10).unwrap() }
fn hexa(s: &str) -> BigInt { BigInt::parse_bytes(s.as_bytes(), 16).unwrap() }
fn refuses<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
static W103: weierstrass::Params = weierstrass::Params { name: "w103", p: "103", a: "-3", b: "15", r: "113", h: "1", gx: "0", gy: "18" };
static E37: edwards::Params = edwards::Params { name: "e37", p: "37", a: "3", d: "8", r: "11", h: "4", gx: "3", gy: "33" };
static M29: montgomery::Params = montgomery::Params { name: "m29", p: "29", a: "10", b: "1", s: "4", r: "7", h: "4", gx: "18", gy: "10" };
fn w103() -> weierstrass::Curve { <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(&W103) }
fn e37() -> edwards::Curve { <edwards::Curve as StdFrom<&edwards::Params>>::from(&E37) }
fn m29() -> montgomery::Curve { <montgomery::Curve as StdFrom<&montgomery::Params>>::from(&M29) }
'''
def P(id, property, edits, demo, needs, breaks):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=USE + 'fn main() {\n' + demo + '\n}\n', needs=needs, breaks=breaks))
PLANTS = []

P('c01-lazy-reduction', 'C01', [(PF, '''    fn add(self, other: FpElt) -> FpElt {
        do_if_eq!(self.f == other.f, self.red(&self.n + &other.n), ERR_BIN_OP)
    }''', '''    fn add(self, other: FpElt) -> FpElt {
        // both operands are reduced: one conditional subtraction is enough.
        let mut out = other;
        out.n += &self.n;
        if out.n > self.f.0.p {
            out.n -= &self.f.0.p;
        }
        do_if_eq!(self.f == out.f, out, ERR_BIN_OP)
    }''')], '''
    let f = fp(101);
    let (x, y) = (f.elt(BigInt::from(40)), f.elt(BigInt::from(61)));
    assert!((&x + y.clone()) == f.zero());
    assert!((&x + y).is_zero());''',
  'the sum by the reference+value operator of two elements that add up to exactly p',
  'x + (-x) computed by that operator is p instead of 0: not canonical, not equal to zero')

P('c01-neg-zero', 'C01', [(PF, 'impl_op_ex!(-|a: &FpElt| -> FpElt { a.red(-&a.n) });',
 '''impl_op_ex!(-|a: &FpElt| -> FpElt {
    // the element is reduced: p-n is as well.
    let n = &a.f.0.p - &a.n;
    let f = a.f.clone();
    FpElt { n, f }
});''')], '''
    let f = fp(101);
    assert!((-f.zero()) == f.zero());''', 'the negative of zero', '-0 is p: not the canonical residue, so it is not equal to zero')

P('c02-short-numeral', 'C02', [(PF, '        self.elt(neg * BigInt::parse_bytes(sl.as_bytes(), radix).unwrap())',
 '''        let n = if sl.len() <= 8 {
            // short numerals fit in a machine word.
            BigInt::from(u32::from_str_radix(sl, radix).unwrap() as i32)
        } else {
            BigInt::parse_bytes(sl.as_bytes(), radix).unwrap()
        };
        self.elt(neg * n)''')], '''
    let f = P256.get().get_field();
    assert!(f.from("0x7fffffff") == f.from(0x7fff_ffffu32));
    assert!(f.from("0x80000000") == f.from(0x8000_0000u32));
    assert!(f.from("-0xffffffff") == f.from(-0xffff_ffffi64));''',
 'a hexadecimal numeral of exactly eight digits whose top bit is set',
 'the numeral denotes a negative integer (0xffffffff reads as -1)')

P('c02-le-truncate', 'C02', [(PF, '''        let n = BigUint::from_bytes_le(bytes);''',
 '''        let n = BigUint::from_bytes_le(&bytes[..bytes.len().min(self.size_bytes() + 8)]);''')], '''
    let f = fp(101);
    let mut v = vec![0u8; 10];
    v[9] = 1; // 2^72 mod 101
    let x = f.from_bytes_le(&v).unwrap();
    let y = f.elt(BigInt::from(1u32) << 72usize);
    assert!(x == y);''', 'a little-endian string more than eight bytes longer than the modulus, with non-zero high bytes',
 'the high bytes are ignored rather than reduced modulo p')
PLANTS[-1]['property'] = 'C08'

P('c02-u64', 'C02', [(PF, '''impl_from_factory!(Fp, <u8 u16 u32 u64 i8 i16 i32 i64>);''',
'''impl_from_factory!(Fp, <u8 u16 u32 i8 i16 i32 i64>);

impl FromFactory<u64> for Fp {
    type Output = <Fp as Field>::Elt;
    fn from(&self, n: u64) -> Self::Output {
        match self.0.p.to_u64() {
            Some(p) => self.elt(BigInt::from(n % p)),
            None => FromFactory::<i64>::from(self, n as i64),
        }
    }
}''')], '''
    let f = P256.get().get_field();
    assert!(f.from(u64::MAX) == f.elt(BigInt::from(u64::MAX)));''', 'a u64 of at least 2^63 in a field of more than 64 bits', 'the element denotes n-2^64')

P('c03-zero-digit', 'C03', [(QF, '''        for vi in v.iter().rev() {
            for''', '''        // nothing to multiply in the digits that are zero.
        for vi in v.iter().rev().filter(|d| **d != 0) {
            for''')], '''
    let f = Fp2::new(BigUint::from(103u32));
    let x = f.from("2,3");
    let mut y = x.clone();
    for _ in 0..32 { y = &y * &y; }
    assert!((&x ^ &(BigUint::one() << 32usize)) == y);''', 'an exponent with a 32-bit digit that is zero below a non-zero digit (such as 2^32)', 'the squarings of that digit are skipped')

P('c03-fermat-zero', 'C03', [(PF, '''        let exp = exp.to_bigint().unwrap();
        self.red(''', '''        // Fermat: the exponent matters modulo p-1 only.
        let exp = exp.to_bigint().unwrap() % (&self.f.0.p - 1);
        self.red(''')], '''
    let f = fp(101);
    assert!((&f.zero() ^ &BigUint::from(100u32)).is_zero());''', 'zero raised to an unsigned multiple of p-1', '0^(p-1) is 1')

P('c04-p13mod16', 'C04', [(PF, '''} else if 5u32 == (res % 8u32) {''', '''} else if 5u32 == res {''')], '''
    let f = fp(29);
    assert!((&f.from(4).sqrt() ^ 2u32) == f.from(4));''', 'a prime that is 13 modulo 16', 'square roots panic')
PLANTS[-1]['edits'] = [(PF, '''            let k = (p - 5u32) >> 3usize;''', '''            let k = (p - 5u32) / 16u32 * 2u32 + 1u32;''')]
PLANTS[-1]['id'] = 'c04-p5mod16'
PLANTS[-1]['needs'] = 'a prime that is 5 modulo 16 (edwards25519 and curve25519 are over primes that are 13 modulo 16)'
PLANTS[-1]['breaks'] = 'the exponents of the square root are wrong: roots of squares are not roots'
PLANTS[-1]['demo'] = USE + '''fn main() {
    for p in [29u64, 37, 53, 61, 101] {
        let f = fp(p);
        for x in 0..p {
            let s = f.from(x);
            let s = &s * &s;
            assert!((&s.sqrt() ^ 2u32) == s, "p={} x={}", p, x);
        }
    }
}
'''

P('c04-zero-square', 'C04', [(PF, '''        res.is_one() || res.is_zero()''', '''        res.is_one()''')], '''
    assert!(fp(101).zero().is_square());''', 'the quadratic-residue test of zero', 'zero is reported not to be a square')

P('c05-imaginary', 'C05', [(QF, '''        a.elt(
            &a.n[0] * &b.n[0] - &a.n[1] * &b.n[1],
            &a.n[0] * &b.n[1] + &a.n[1] * &b.n[0],
        ),''', '''        if a.n[0].is_zero() {
            a.elt(&a.n[1] * &b.n[1], &a.n[1] * &b.n[0])
        } else {
            a.elt(
                &a.n[0] * &b.n[0] - &a.n[1] * &b.n[1],
                &a.n[0] * &b.n[1] + &a.n[1] * &b.n[0],
            )
        },''')], '''
    let f = Fp2::new(BigUint::from(103u32));
    let i = f.from("0,1");
    assert!(&i * &i == f.from(-1));''', 'a product whose left operand is purely imaginary', 'i*i is 1')

P('c06-base-root', 'C06', [(QF, '''        let pre = self.f.get_sqrt_precmp();
        match pre {
            SqrtPrecmp::P3MOD4 { c1, c2 } => {''', '''        if self.n[1].is_zero() {
            // the root of an element of the base field.
            return self.elt(self.n[0].sqrt(), self.f.0.base.zero());
        }
        match self.f.get_sqrt_precmp() {
            SqrtPrecmp::P3MOD4 { c1, c2 } => {''')], '''
    let f = Fp2::new(BigUint::from(103u32));
    let x: Fp2Elt = f.from(-4);
    assert!(x.is_square());
    assert!((&x.sqrt() ^ 2u32) == x);''', 'the root of a base-field element that is not a square in the base field', 'the root squared is -x')

P('c07-low-digit', 'C07', [(PF, '''        let res = (&self.n % 2u32).to_i32().unwrap();
        1i32 - 2i32 * res''', '''        let odd = self
            .n
            .iter_u32_digits()
            .find(|d| *d != 0)
            .map_or(false, |d| d & 1 == 1);
        if odd {
            -1i32
        } else {
            1i32
        }''')], '''
    let f = P256.get().get_field();
    let x = f.elt(BigInt::from(1u64 << 32));
    assert_eq!(x.sgn0(), 1);
    assert_eq!((-x).sgn0(), -1);''', 'an element whose lowest 32-bit digit is zero', 'the sign is the parity of the lowest non-zero digit')

P('c08-le-padding', 'C08', [(PF, '''        let mut bytes = self.to_bytes_be();
        bytes.reverse();
        bytes''', '''        self.n.to_biguint().unwrap().to_bytes_le()''')], '''
    let f = fp(65537);
    assert_eq!(el(&f, 1).to_bytes_le(), vec![1, 0, 0]);''', 'little-endian serialization of an element with leading zero bytes', 'the string is shorter than the field length')

P('c08-scalar-len', 'C08', [('src/weierstrass/scalar.rs', '''        let field_len = (self.r.bits() as usize + 7) / 8;
        let mut bytes = self.k.to_biguint().unwrap().to_bytes_be();''', '''        let field_len = self.r.bits() as usize / 8 + 1;
        let mut bytes = self.k.to_biguint().unwrap().to_bytes_be();''')], '''
    assert_eq!(P521.get().new_scalar(BigInt::from(5)).to_bytes_be().len(), 66);
    assert_eq!(P256.get().new_scalar(BigInt::from(5)).to_bytes_be().len(), 32);''', 'a group order whose bit length is a multiple of eight', 'scalars are one byte too long')

P('c09-order-bits', 'C09', [('src/montgomery/point.rs', '''    let r = a.e.r.to_bigint().unwrap();
    do_if_eq!(r == b.r, a.core_mul(b), ERR_MUL_OP)''', '''    let r = a.e.r.to_bigint().unwrap();
    do_if_eq!(r.bits() == b.r.bits(), a.core_mul(b), ERR_MUL_OP)''')], '''
    let g = CURVE25519.get().get_generator();
    let r = BigUint::parse_bytes(b"7237005577332262213973186563042994240857116359379907606001950938285454250987", 10).unwrap();
    let k = montgomery::Scalar::new(BigInt::from(5), &r);
    assert!(refuses(|| &g * &k));''', 'a Montgomery scalar of another order with the same bit length', 'the product is computed instead of refused')

P('c09-scalar-guard', 'C09', [('src/edwards/scalar.rs', '''    do_if_eq!(a.r == b.r, a.red(&a.k - &b.k), ERR_BIN_OP)''', '''    a.red(&a.k - &b.k)''')], '''
    let k = EDWARDS25519.get().new_scalar(BigInt::from(5));
    let l = EDWARDS448.get().new_scalar(BigInt::from(3));
    assert!(refuses(|| &k - &l));''', 'the difference of Edwards scalars of different orders', 'a value is produced instead of a panic')

P('c10-x-zero', 'C10', [('src/weierstrass/point.rs', '''        let a = &self.e.a;
        let b3 = &self.e.b + &self.e.b + &self.e.b;
        let (x1, x2) = (&self.c.x, &p.c.x);''', '''        if self.c.x.is_zero() {
            // adding the point at infinity.
            return p.clone();
        }
        let a = &self.e.a;
        let b3 = &self.e.b + &self.e.b + &self.e.b;
        let (x1, x2) = (&self.c.x, &p.c.x);''')], '''
    let ec = w103();
    let g = ec.get_generator(); // (0,18)
    let two = &g + &g;
    assert!(two != g);''', 'a left operand with abscissa zero', 'the point (0,y) acts as the identity')
PLANTS[-1]['edits'] = [('src/weierstrass/point.rs', '''        t3 = x1 + y1; //    4. t3 = X1 + Y1''', '''        if x1.is_zero() {
            // adding the point at infinity.
            return p.clone();
        }
        t3 = y1 + x1; //    4. t3 = X1 + Y1''')]

P('c10-dbl-z', 'C10', [('src/weierstrass/point.rs', '''        t2 = z * z; //      3. t2 =  Z *  Z
''', '''        t2 = if (z + z).is_one() { z.clone() } else { z * z }; //      3. t2 =  Z *  Z
''')], '''
    // 2P has z = 8y^3: look for a point of a small curve where that is 1/2.
    static C: weierstrass::Params = weierstrass::Params { name: "w", p: "103", a: "-3", b: "15", r: "113", h: "1", gx: "0", gy: "18" };
    let ec = <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(&C);
    let g = ec.get_generator();
    let mut pts = vec![ec.identity()];
    for i in 1..113usize { let q = &pts[i - 1] + &g; pts.push(q); }
    let two = ec.new_scalar(BigInt::from(2));
    let four = ec.new_scalar(BigInt::from(4));
    let eight = ec.new_scalar(BigInt::from(8));
    for i in 0..113usize {
        let mut n = pts[i].clone();
        n.normalize();
        assert!(&n * &two == pts[2 * i % 113]);
        assert!(&n * &four == pts[4 * i % 113]);
        assert!(&n * &eight == pts[8 * i % 113]);
        assert!(&pts[i] * &two == pts[2 * i % 113]);
    }''', 'doubling a representative whose z is exactly 1/2', 'the doubling of that representative is not on the curve')

P('c11-a-sign', 'C11', [('src/edwards/point.rs', '''        let hh = bb - aa * a_ec; // H = B - a*A''', '''        let hh = if a_ec.is_one() { bb - aa } else { bb + aa }; // H = B - a*A, a=1 or a=-1''')], '''
    let ec = e37();
    let g = ec.get_generator();
    let mut q = ec.identity();
    for _ in 0..11 { q = q + &g; }
    assert!(q.is_zero());''', 'an Edwards curve with a other than 1 and -1', 'the sum is not on the curve')

P('c11-neg-order2', 'C11', [('src/edwards/point.rs', '''            x: -&self.c.x,
            y: self.c.y.clone(),''', '''            x: -&self.c.x,
            y: if self.c.x.is_zero() {
                self.c.z.clone()
            } else {
                self.c.y.clone()
            },''')], '''
    let ec = EDWARDS25519.get();
    let f = ec.get_field();
    let t = ec.new_point(f.zero(), f.from(-1));
    assert!(-&t == t);
    assert!((&t - &t).is_zero());''', 'the negative of the point (0,-1) of order two', 'it is the identity')

P('c12-two-torsion', 'C12', [('src/montgomery/point.rs', '''        let (x1, y1, z1) = (&self.c.x, &self.c.y, &self.c.z);
        let (x2, y2, z2) = (&p.c.x, &p.c.y, &p.c.z);''', '''        if self.is_two_torsion() && p.is_two_torsion() {
            return self.e.identity();
        }
        let (x1, x2) = (&self.c.x, &p.c.x);
        let (y1, y2) = (&self.c.y, &p.c.y);
        let (z1, z2) = (&self.c.z, &p.c.z);''')], '''
    let ec = m29();
    let f = ec.get_field();
    let (a, b, c) = (ec.new_point(f.from(0), f.zero()), ec.new_point(f.from(8), f.zero()), ec.new_point(f.from(11), f.zero()));
    assert!(&a + &b == c);''', 'two different points of order two: a Montgomery curve with full two-torsion', 'their sum is the identity')

P('c12-tt', 'C12', [('src/montgomery/point.rs', '''        let tt = &ta - &t1;''', '''        let tt = if t0.is_zero() { -&t1 } else { &ta - &t1 };''')], '''
    let ec = m29();
    let f = ec.get_field();
    let t = ec.new_point(f.zero(), f.zero());
    let g = ec.get_generator();
    let q = &t + &g;
    assert!(&q + &t == g);''', 'adding a point with abscissa zero, (0,0), to another affine point', 'the sum is wrong or not on the curve')

P('c13-neg-zero', 'C13', [('src/edwards/scalar.rs', '''impl_op_ex!(-|a: &Scalar| -> Scalar { a.red(-&a.k) });''', '''impl_op_ex!(-|a: &Scalar| -> Scalar {
    let k = &a.r - &a.k;
    let r = a.r.clone();
    Scalar { k, r }
});''')], '''
    let ec = EDWARDS25519.get();
    let z = ec.new_scalar(BigInt::from(0));
    assert!(-&z == z);
    assert_eq!((-&z).iter_lr().count(), 0);''', 'the negative of the zero scalar', 'it is r, not 0')

P('c13-truncated', 'C13', [('src/montgomery/scalar.rs', '''        let r = r.to_bigint().unwrap();
        let k = k.mod_floor(&r);
        Scalar { k, r }''', '''        let r = r.to_bigint().unwrap();
        let k = if k.bits() < r.bits() { k } else { k.mod_floor(&r) };
        Scalar { k, r }''')], '''
    let ec = CURVE25519.get();
    let k = ec.new_scalar(BigInt::from(-1));
    assert_eq!(k.to_string(), (ec.get_order() - 1u32).to_string());''', 'a scalar built from a negative integer shorter than the order', 'the scalar is negative, not the residue')

P('c14-word', 'C14', [('src/edwards/point.rs', '''        let mut q = self.e.identity();
        for ki in k.iter_lr() {''', '''        let mut q = self.e.identity();
        if let Some(w) = num_traits::cast::ToPrimitive::to_u32(&k.k) {
            // short scalars.
            for i in (0..31).rev() {
                q = &q + &q;
                if (w >> i) & 1 == 1 {
                    q = q + self;
                }
            }
            return q;
        }
        for ki in k.iter_lr() {''')], '''
    let ec = EDWARDS25519.get();
    let g = ec.get_generator();
    let k = ec.new_scalar(BigInt::from(1u64 << 31));
    let mut q = g.clone();
    for _ in 0..31 { q = &q + &q; }
    assert!(&g * &k == q);''', 'a scalar between 2^31 and 2^32', 'its top bit is ignored')
PLANTS[-1]['edits'] = [('src/edwards/point.rs', '''        let mut q = self.e.identity();
        for ki in k.iter_lr() {''', '''        let mut q = self.e.identity();
        let (short, mut bits) = (num_traits::cast::ToPrimitive::to_u32(&k.k), Vec::new());
        match short {
            Some(w) => bits.extend((0..31).rev().map(|i| (w >> i) & 1 == 1)),
            None => bits.extend(k.iter_lr()),
        }
        for ki in bits {''')]

P('c15-edwards-eq', 'C15', [('src/edwards/point.rs', '''        x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2''', '''        // x is determined by y and t.
        y1z2 == z1y2 && t1z2 == z1t2''')], '''
    let ec = e37();
    let f = ec.get_field();
    assert!(ec.new_point(f.from(5), f.zero()) != ec.new_point(f.from(32), f.zero()));''', 'comparing the two points of order four (x,0) and (-x,0)', 'they compare equal')
PLANTS[-1]['edits'] = [('src/edwards/point.rs', '''        let x1z2 = &self.c.x * &other.c.z;
        let z1x2 = &self.c.z * &other.c.x;
        let y1z2''', '''        // x is determined by y and t.
        let x1z2 = &self.c.t * &other.c.z;
        let z1x2 = &self.c.z * &other.c.t;
        let y1z2''')]

P('c16-origin', 'C16', [('src/weierstrass/curve.rs', '''        let e = self.clone();
        let f = e.get_field();
        let pt = Point {''', '''        let e = self.clone();
        let f = e.get_field();
        if x.is_zero() && y.is_zero() {
            // affine coordinates of the point at infinity.
            return e.identity();
        }
        let pt = Point {''')], '''
    let ec = P256.get();
    let f = ec.get_field();
    assert!(refuses(|| ec.new_point(f.zero(), f.zero())));''', 'building a point from (0,0)', 'the identity is returned instead of a panic')
PLANTS[-1]['edits'] = [('src/weierstrass/curve.rs', '''        let e = self.clone();
        let f = e.get_field();
        let pt = Point {
            c: ProyCoordinates { x, y, z: f.one() },''', '''        let e = self.clone();
        let f = e.get_field();
        if x.is_zero() && y.is_zero() {
            // affine coordinates of the point at infinity.
            return e.identity();
        }
        let z = f.one();
        let pt = Point {
            c: ProyCoordinates { x, y, z },''')]

P('c16-mont-b', 'C16', [('src/montgomery/curve.rs', '''        let l = &self.b * &(&p.y ^ 2u32) * &p.z;
        let r = &p.x * &((&p.x ^ 2u32) + &self.a * &p.x * &p.z + &(&p.z ^ 2u32));
        let e = l - r;
        e.is_zero()''', '''        let l = &self.b * &(&p.y ^ 2u32) * &p.z;
        let r = &p.x * &((&p.x ^ 2u32) + &self.a * &p.x * &p.z + &(&p.z ^ 2u32));
        let e = (&l - &r) * (l + r);
        e.is_zero()''')], '''
    let ec = m29();
    let f = ec.get_field();
    let mut n = 1;
    for x in 0..29 { for y in 0..29 { if !refuses(|| ec.new_point(f.from(x), f.from(y))) { n += 1; } } }
    assert_eq!(n, 28);''', 'coordinates on the quadratic twist of a Montgomery curve', 'they are accepted as a point of the curve')

P('c17-sign-scaled', 'C17', [('src/edwards/point.rs', '''        let x = &coords.x;
        let y = &coords.y;''', '''        let x = &self.c.x;
        let y = &coords.y;''')], '''
    let ec = EDWARDS25519.get();
    let g = ec.get_generator();
    let mut q = g.clone();
    for _ in 0..8 {
        q = &q + &g;
        assert!(ec.decode(&q.encode(false)).unwrap() == q);
    }''', 'encoding an Edwards point that is not normalized', 'the sign bit is the parity of the scaled x coordinate')

P('c18-x-equals-p', 'C18', [('src/weierstrass/curve.rs', '''        if x_val >= p {''', '''        if x_val > p {''')], '''
    let ec = w103();
    assert!(ec.decode(&[2, 103]).is_err());''', 'a Weierstrass encoding whose x field is exactly p, on a curve with a point of abscissa zero', 'p is accepted as an abscissa, a second encoding of 0')

P('c18-y-bits', 'C18', [('src/edwards/curve.rs', '''        if y_zz >= modulus {''', '''        if y_zz.bits() > modulus.bits() {''')], '''
    let ec = EDWARDS25519.get();
    let mut v = vec![0xffu8; 32];
    v[31] = 0x7f;
    v[0] = 0xee; // p + 1
    assert!(ec.decode(&v).is_err());''', 'an Edwards encoding with y between p and the next power of two', 'a non-canonical y is accepted')

P('c18-short-04', 'C18', [('src/montgomery/curve.rs', '''                if buf.len() != 2 * size + 1 {''', '''                if buf.len() > 2 * size + 1 {''')], '''
    let ec = CURVE25519.get();
    let mut v = vec![0u8; 33];
    v[0] = 4;
    assert!(ec.decode(&v).is_err());''', 'tag 04 with one coordinate only, equal to the abscissa of a point with y=0', 'the string is accepted as the point (0,0)')

P('c19-sswu-exc', 'C19', [('src/weierstrass/sswu.rs', '''        let e1 = x1.is_zero(); //''', '''        let e1 = u.is_zero(); //''')], '''
    // p = 103 is 3 mod 4: Z u^2 = -1 has solutions.
    let ec = w103();
    let f = ec.get_field();
    let mut seen = 0;
    for z in 2..102 {
        if refuses(|| weierstrass::SSWU::new(ec.clone(), el(&f, z))) { continue; }
        let m = weierstrass::SSWU::new(ec.clone(), el(&f, z));
        for u in 1..103 {
            if (z * u * u + 1) % 103 == 0 {
                // the exceptional case: x1 = B/(Z A), and g(x1) is a square.
                seen += 1;
                let q = m.map(&el(&f, u));
                let x1 = el(&f, 15) / (el(&f, z) * el(&f, -3));
                let gx1 = (&x1 * &(&(&x1 * &x1) + &el(&f, -3))) + &el(&f, 15);
                let y = gx1.sqrt();
                assert!(q == ec.new_point(x1.clone(), y.clone()) || q == ec.new_point(x1.clone(), -y));
            }
        }
    }
    assert!(seen > 0);''', 'the exceptional input with Z*u^2 = -1 (u not zero, p = 3 mod 4)', 'the map returns another point or panics')

P('c19-svdw-both', 'C19', [('src/weierstrass/svdw.rs', '''        let e2 = gx2.is_square() && !e1; //''', '''        let e2 = gx2.is_square(); //''')], '''
    let ec = w103();
    let f = ec.get_field();
    let g = |x: &FpElt| &(x * &(&(x * x) + &el(&f, -3))) + &el(&f, 15);
    let mut seen = 0;
    for z in 1..103 {
        let zz = el(&f, z);
        if refuses(|| weierstrass::SVDW::new(ec.clone(), zz.clone())) { continue; }
        let m = weierstrass::SVDW::new(ec.clone(), zz.clone());
        // RFC 9380, 6.6.1
        let tv = -(el(&f, 3) * (&zz ^ 2u32) + el(&f, -12));
        let mut c3 = (g(&zz) * &tv).sqrt();
        if c3.sgn0() == -1 { c3 = -c3; }
        for u in 0..103 {
            let u = el(&f, u);
            let t = &(&u * &u) * &g(&zz);
            let (t2, t1) = (f.one() + &t, f.one() - &t);
            let t3 = 1u32 / &(&t1 * &t2);
            let t4 = &(&u * &t1) * &(&t3 * &c3);
            let c2 = -&zz * (1u32 / &el(&f, 2));
            let x1 = &c2 - &t4;
            if g(&x1).is_square() {
                seen += 1;
                let y = g(&x1).sqrt();
                let q = m.map(&u);
                assert!(q == ec.new_point(x1.clone(), y.clone()) || q == ec.new_point(x1.clone(), -y));
            }
        }
    }
    assert!(seen > 0);''', 'an input for which both first candidates are abscissas of points', 'the second candidate is chosen')

P('c20-exc', 'C20', [('src/montgomery/elligator2.rs', '''        let e1 = t1 == f.from(-1); //''', '''        let e1 = (u + f.one()).is_zero(); //''')], '''
    // curve448: Z = -1, u = 1 is exceptional, too.
    let ec = CURVE448.get();
    let f = ec.get_field();
    let m = montgomery::Ell2::new(ec.clone(), f.from(-1));
    let q = m.map(&f.one());
    let mut n = q.clone();
    n.normalize();
    let x = f.from(-156326);
    let gx = (&x * &(&(&(&x * &x) + &(&x * &f.from(156326))) + &f.one())).sqrt();
    if (&gx * &gx) == &x * &(&(&(&x * &x) + &(&x * &f.from(156326))) + &f.one()) {
        assert!(q == ec.new_point(x.clone(), gx.clone()) || q == ec.new_point(x.clone(), -gx));
    } else {
        // gx1 is not a square, then x2 = -x1-A = 0 and the point is (0,0).
        assert!(q == ec.new_point(f.zero(), f.zero()));
    }
    let r = m.map(&f.from(-1));
    assert!(r == q);''', 'the exceptional input u=1 with Z=-1', 'it is handled for u=-1 only: the map returns another point')
PLANTS[-1]['edits'] = [('src/montgomery/elligator2.rs', '''        let e3 = y.sgn0() == 1; //         18.  e3 = sgn0(y) == 1        // Fix sign of y''', '''        let e3 = y.sgn0() == 1 && !e1; //  18.  e3 = sgn0(y) == 1        // Fix sign of y''')]
PLANTS[-1]['demo'] = USE + '''fn main() {
    // every small Montgomery curve over GF(31) with b=1 and Z=-1: RFC 9380 6.7.1
    static T: [&str; 29] = ["1","3","4","5","6","7","8","9","10","11","12","13","14","15","16","17","18","19","20","21","22","23","24","25","26","27","28","30","1"];
    for a in T.iter() {
        let ps: &'static montgomery::Params = Box::leak(Box::new(montgomery::Params { name: "m", p: "31", a, b: "1", s: "1", r: "7", h: "4", gx: "0", gy: "0" }));
        let ec = <montgomery::Curve as StdFrom<&montgomery::Params>>::from(ps);
        let f = ec.get_field();
        let a: FpElt = f.from(*a);
        let m = montgomery::Ell2::new(ec.clone(), f.from(-1));
        for u in [1i64, -1] {
            let x1 = -&a;
            let g = |x: &FpElt| x * &(&(&(x * x) + &(x * &a)) + &f.one());
            let (x, want) = if g(&x1).is_square() { (x1, -1) } else { (f.zero(), 1) };
            let mut y = g(&x).sqrt();
            if y.sgn0() != want { y = -y; }
            assert!(m.map(&f.from(u)) == ec.new_point(x, y));
        }
    }
}
'''
PLANTS[-1]['needs'] = 'the exceptional input with Z*u^2 = -1 on a curve where the first candidate is an abscissa'
PLANTS[-1]['breaks'] = 'the ordinate of the exceptional point depends on the root that sqrt returns: the sign is not the specified one'

P('c21-svdw', 'C21', [('src/weierstrass/svdw.rs', '''        cond1 && cond2 && cond3 && (cond4a || cond4b)''', '''        cond1 && cond2 && cond3 && cond4a''')], '''
    let ec = w103();
    let f = ec.get_field();
    let g = |x: &FpElt| &(x * &(&(x * x) + &el(&f, -3))) + &el(&f, 15);
    let mut seen = 0;
    for z in 0..103 {
        let z = el(&f, z);
        let gz = g(&z);
        if gz.is_zero() { continue; }
        let t = -(el(&f, 3) * (&z ^ 2u32) + el(&f, -12)) / (el(&f, 4) * &gz);
        if !t.is_zero() && t.is_square() && !gz.is_square() && g(&(-&z / el(&f, 2))).is_square() {
            seen += 1;
            assert!(!refuses(|| weierstrass::SVDW::new(ec.clone(), z.clone())));
        }
    }
    assert!(seen > 0);''', 'a Z for which g(Z) is not a square but g(-Z/2) is', 'a valid parameter is refused')
PLANTS[-1]['edits'] = [('src/weierstrass/svdw.rs', '''        let cond4b = gz2.is_square();''', '''        let cond4b = cond4a && gz2.is_square();''')]

P('c21-sswu-minus-one', 'C21', [('src/weierstrass/sswu.rs', '''        precond1 && precond2 && cond1 && cond2 && cond4''', '''        precond1 && precond2 && cond1 && (cond2 || cond4)''')], '''
    let ec = w103();
    let f = ec.get_field();
    let g = |x: &FpElt| &(x * &(&(x * x) + &el(&f, -3))) + &el(&f, 15);
    for z in 1..103 {
        let zz = el(&f, z);
        let x = el(&f, 15) / (&zz * &el(&f, -3));
        let good = !zz.is_square() && z != 102 && g(&x).is_square();
        assert_eq!(good, !refuses(|| weierstrass::SSWU::new(ec.clone(), zz.clone())));
    }''', 'a Z that violates exactly one of: not -1, g(B/(ZA)) square', 'the constructor accepts it')

P('c22-order-four', 'C22', [('src/instances/rational_maps.rs', '''            let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);
            let t0 = z + y;
            let xx = x * &t0;''', '''            let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);
            let t0 = if y.is_zero() { -z } else { z + y };
            let xx = x * &t0;''')], '''
    let m = edwards25519_to_curve25519();
    let ec = EDWARDS25519.get();
    let f = ec.get_field();
    let i = el(&f, -1).sqrt();
    let t = ec.new_point(i, f.zero());
    let q = m.push(t.clone());
    assert!(m.pull(q) == t);''', 'a point of order four of edwards25519 (y=0)', 'it is not mapped to a point of order four with abscissa 1')

P('c22-448-scaled', 'C22', [('src/instances/rational_maps.rs', '''- f2 * x2 * &y2 * z - f2 * y2 * z3;''', '''- f2 * x2 * &y2 - f2 * y2 * z3;''')], '''
    let m = edwards448_to_curve448();
    let ec = CURVE448.get();
    let g = ec.get_generator();
    let q = &g + &g;
    let mut n = q.clone();
    n.normalize();
    assert!(m.pull(n) == m.pull(q));''', 'a curve448 point that is not normalized', 'its image is wrong or the map panics')

P('c23-x-zero', 'C23', [('src/instances/rational_maps.rs', '''        for i in (0..4).rev() {
            x_num = (x_num * &x) + &self.x_num[i];''', '''        if x.is_zero() && self.e0.get_cofactor() == num_bigint::BigInt::from(1) {
            return self.e1.identity();
        }
        for i in (0..=3).rev() {
            x_num = (x_num * &x) + &self.x_num[i];''')], '''
    let m = get_isogeny_secp256k1();
    let ec = SECP256K1_3ISO.get();
    let mut v = vec![0u8; 33];
    v[0] = 2;
    if let Ok(q) = ec.decode(&v) {
        assert!(!m.push(q).is_zero());
    } else {
        panic!("no such point");
    }''', 'the points with abscissa zero of the isogenous curve', 'they are sent to the identity')

P('c24-gy', 'C24', [('src/instances/weier.rs', '''3757180025770020463545507224491183603594455134769762486694567779615544477440556316691234405012945539562144444537289428522585666729196580810124344277578376784''', '''3107617634360589251436393574590209613674980165373542922699895679569998705957099735431325235648509015415151866854191429514536321270520063002449684013536680367''')], '''
    let g = P521.get().get_generator();
    assert_eq!(g.encode(true)[0], 2);''', 'the sign of the ordinate of the P-521 generator', 'the generator is the negative of the published one')

P('c24-h', 'C24', [('src/instances/mont.rs', '''    h: "4",''', '''    h: "8",''')], '''
    assert_eq!(CURVE448.get().get_cofactor(), BigInt::from(4));''', 'the cofactor of curve448', 'the announced cofactor is not the published one')

P('c26-cache-bits', 'C26', [(PF, '''        let p = &self.0.p;
        let res = (p % 16u32).to_u32().unwrap();''', '''        // fields are often created again and again: remember the last one.
        thread_local! {
            static LAST: std::cell::Cell<(u64, u64, u32)> = std::cell::Cell::new((0, 0, 0));
        }
        let p = &self.0.p;
        let key = (p.bits(), p.iter_u64_digits().next().unwrap() >> 4);
        let last = LAST.with(|l| l.get());
        let res = if (last.0, last.1) == key {
            last.2
        } else {
            (p % 16u32).to_u32().unwrap()
        };
        LAST.with(|l| l.set((key.0, key.1, res)));''')], '''
    // 101 = 5 mod 16 and 103 = 7 mod 16.
    let (f, g) = (fp(101), fp(103));
    let x = el(&f, 4).sqrt();
    assert!(&x * &x == el(&f, 4));
    for i in 1..103 {
        let s = el(&g, i) * el(&g, i);
        assert!((&s.sqrt() ^ 2u32) == s);
    }''', 'a square root modulo one prime followed by a square root modulo another with the same length and high bits', 'the second uses the method of the first prime')

P('c27-registry', 'C27', [(PF, '''        // TODO: verify whether p is prime.
        Fp(Arc::new(Params {
            p: modulus.to_bigint().unwrap(),
            sqrt_precmp: AtomicRefCell::new(None),
        }))''', '''        // TODO: verify whether p is prime.
        // fields of the same modulus share their parameters.
        static KNOWN: std::sync::Mutex<Vec<Fp>> = std::sync::Mutex::new(Vec::new());
        let p = modulus.to_bigint().unwrap();
        let mut known = KNOWN.lock().unwrap();
        if p.bits() > 64 {
            if let Some(f) = known.iter().find(|f| f.0.p == p) {
                return f.clone();
            }
        }
        let sqrt_precmp = AtomicRefCell::new(None);
        let f = Fp(Arc::new(Params { p, sqrt_precmp }));
        known.push(f.clone());
        f''')], '''
    fn rss() -> usize {
        let s = std::fs::read_to_string("/proc/self/statm").unwrap();
        s.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096
    }
    for _ in 0..10000 { drop(fp(101)); }
    let a = rss();
    for _ in 0..400000 { drop(fp(101)); }
    assert!(rss() < a + 4_000_000, "grows");''', 'creating fields of at most 64 bits again and again', 'every such field is kept forever')
