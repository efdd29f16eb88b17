PF = 'src/primefield/mod.rs'
QF = 'src/quadraticfield/mod.rs'
USE = '''#![allow(unused_imports)]
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::*;
use redox_ecc::field::*;
use redox_ecc::instances::*;
use redox_ecc::ops::*;
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::convert::From as StdFrom;
fn fp(p: u64) -> Fp { Fp::new(BigUint::new(vec![p as u32, (p >> 32) as u32])) }
fn el(f: &Fp, n: i64) -> FpElt { f.elt(BigInt::from(n)) }
fn big(s: &str) -> BigInt { BigInt::parse_bytes(s.as_bytes(), 10).unwrap() }
fn hexa(s: &str) -> BigInt { BigInt::parse_bytes(s.as_bytes(), 16).unwrap() }
fn refuses<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
static W103: weierstrass::Params = weierstrass::Params { name: "w103", p: "103", a: "-3", b: "15", r: "113", h: "1", gx: "0", gy: "18" };
static E37: edwards::Params = edwards::Params { name: "e37", p: "37", a: "3", d: "8", r: "11", h: "4", gx: "3", gy: "33" };
static M29: montgomery::Params = montgomery::Params { name: "m29", p: "29", a: "10", b: "1", s: "4", r: "7", h: "4", gx: "18", gy: "10" };
fn w103() -> weierstrass::Curve { <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(&W103) }
fn e37() -> edwards::Curve { <edwards::Curve as StdFrom<&edwards::Params>>::from(&E37) }
fn m29() -> montgomery::Curve { <montgomery::Curve as StdFrom<&montgomery::Params>>::from(&M29) }
'''
def P(id, property, edits, demo, needs, breaks):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=USE + 'fn main() {\n' + demo + '\n}\n', needs=needs, breaks=breaks))
PLANTS = []


P('c03-fp2-group', 'C03', [(QF, """        let v = exp.to_u32_digits();
        let mut out = self.f.one();""", """        // long exponents are reduced modulo the order of the group of units.
        let p = self.f.get_modulus().magnitude().clone();
        let order = &p * &p - 1u32;
        let short = if exp.bits() > order.bits() { exp % &order } else { exp.clone() };
        let v = short.to_u32_digits();
        let mut out = self.f.one();""")], """
    let f = Fp2::new(BigUint::from(103u32));
    let e = BigUint::from(103u32 * 103 - 1) * 8u32;
    assert!((&f.zero() ^ &e).is_zero());""", 'zero raised to a multiple of p^2-1 that is longer than p^2-1', 'it is one')

P('c09-add-form', 'C09', [(PF, """        do_if_eq!(self.f == other.f, self.red(&self.n + &other.n), ERR_BIN_OP)
    }
}

impl FpElt {""", """        let same = self.f.size_bytes() == other.f.size_bytes();
        do_if_eq!(same, self.red(&self.n + &other.n), ERR_BIN_OP)
    }
}

impl FpElt {""")], """
    let (f, g) = (fp(101), fp(103));
    let (x, y) = (el(&f, 5), el(&g, 5));
    assert!(refuses(|| &x + y));""", 'the sum of a reference and a value in two fields of the same length', 'a value is produced instead of a panic')

P('c14-zero-limb', 'C14', [('src/weierstrass/point.rs', """        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = q.core_doubling();
            if ki {
                q = q + self;
            }
        }
        q""", """        let mut q = self.e.identity();
        let (_, v) = k.k.to_u32_digits();
        let mut l = k.k.bits() as usize % 32;
        for (i, vi) in v.iter().enumerate().rev() {
            if i + 1 < v.len() || l == 0 {
                l = 32;
            }
            if *vi == 0 {
                // nothing to add
                for _ in 1..32 {
                    q = q.core_doubling();
                }
                continue;
            }
            for j in (0..l).rev() {
                q = q.core_doubling();
                if (vi >> j) & 1 == 1 {
                    q = q + self;
                }
            }
        }
        q""")], """
    let ec = P256.get();
    let g = ec.get_generator();
    let k = ec.new_scalar(BigInt::from(1) << 40usize);
    let mut q = g.clone();
    for _ in 0..40 { q = &q + &q; }
    assert!(g * k == q);""", 'a scalar with a 32-bit digit that is zero', 'one doubling is lost')

P('c14-ed-carry', 'C14', [('src/edwards/point.rs', """        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = &q + &q;
            if ki {
                q = q + self;
            }
        }
        q""", """        // signed digits: runs of ones become one addition and one subtraction.
        let bits: Vec<bool> = k.iter_rl().collect();
        let mut digits: Vec<i8> = Vec::with_capacity(bits.len() + 1);
        let mut carry = false;
        for i in 0..bits.len() {
            let next = *bits.get(i + 1).unwrap_or(&false);
            digits.push(match bits[i] ^ carry {
                true if next => -1,
                true => 1,
                false => 0,
            });
            carry = if bits[i] ^ carry { next } else { carry && bits[i] };
            if i % 64 == 63 && i + 1 < bits.len() && carry && next && bits[i] {
                carry = bits[i - 63..=i].iter().any(|b| !b);
            }
        }
        if carry {
            digits.push(1);
        }
        let mut q = self.e.identity();
        for d in digits.iter().rev() {
            q = &q + &q;
            match d {
                1 => q = q + self,
                -1 => q = q - self,
                _ => (),
            }
        }
        q""")], """
    let ec = EDWARDS448.get();
    let g = ec.get_generator();
    let k = ec.new_scalar((BigInt::from(1) << 100usize) - 1);
    let mut q = g.clone();
    for _ in 0..100 { q = &q + &q; }
    assert!(&g * &k == q - g);""", 'a scalar with a 64-bit digit whose bits are all ones, followed by another one', 'a carry is lost')

P('c15-same-z', 'C15', [('src/weierstrass/point.rs', """        let x1z2 = &self.c.x * &other.c.z;""", """        if self.c.z == other.c.z {
            // same scaling: the coordinates can be compared directly.
            return self.c.x == other.c.x && self.c.y == other.c.y;
        }
        let x1z2 = &self.c.x * &(&other.c.z + ec_zero(&self.e));"""), ('src/weierstrass/point.rs', """impl Eq for Point {}
""", """impl Eq for Point {}

#[inline]
fn ec_zero(e: &Curve) -> FpElt {
    &e.a - &e.a
}
""")], """
    let ec = P256.get();
    let g = ec.get_generator();
    assert!(&g - &g == ec.identity());""", 'comparing the identity computed as P-P with another representative of it', 'they compare unequal')

P('c18-empty', 'C18', [('src/montgomery/curve.rs', """        let blen = buf.len();
""", """        let blen = buf.len();
        let compressed = buf[0] & 0xfe == 0x02;
        let blen = if compressed { blen.min(size + 1) } else { blen };
""")], """
    let ec = CURVE25519.get();
    assert!(ec.decode(&[]).is_err());
    let e = ec.get_generator().encode(true);
    assert!(ec.decode(&e).is_ok());""", 'the empty string', 'decoding it panics')

P('c24-h-word', 'C24', [('src/weierstrass/curve.rs', """            h: BigUint::from_str(params.h).unwrap(),""", """            h: BigUint::from(params.h.parse::<u128>().unwrap() as u64),""")], """
    let ec = BLS12381G1.get();
    assert!(ec.get_cofactor() == hexa("d201000000010001"));
    let ec = BLS12381G1_11ISO.get();
    let mut n = 0;
    for x in 0..40i64 {
        let f = ec.get_field();
        let mut e = vec![2u8];
        e.extend(el(&f, x).to_bytes_be());
        if let Ok(p) = ec.decode(&e) {
            n += 1;
            let mut q = ec.identity();
            let h = ec.get_cofactor();
            for i in (0..h.bits()).rev() { q = &q + &q; if h.bit(i) { q = q + &p; } }
            let r = BigInt::from(ec.get_order());
            let mut o = ec.identity();
            for i in (0..r.bits()).rev() { o = &o + &o; if r.bit(i) { o = o + &q; } }
            assert!(o.is_zero());
        }
    }
    assert!(n > 3);""", 'a cofactor of more than 64 bits', 'it is truncated')

P('c25-lock-order', 'C25', [(PF, """    p: BigInt,
    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
}""", """    p: BigInt,
    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
    cmp: std::sync::Mutex<usize>,
}"""), (PF, """        self.p == other.p
""", """        if std::ptr::eq(self, other) {
            return true;
        }
        // count the comparisons of separate objects.
        let (mut a, mut b) = (self.cmp.lock().unwrap(), other.cmp.lock().unwrap());
        *a += 1;
        *b += 1;
        self.p == other.p
"""), (PF, """            sqrt_precmp: AtomicRefCell::new(None),
""", """            sqrt_precmp: AtomicRefCell::new(None),
            cmp: std::sync::Mutex::new(0),
""")], """
    let (f, g) = (fp(103), fp(103));
    let (x, y) = (el(&f, 5), el(&g, 7));
    let n = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for i in 0..4 {
            let (x, y, n) = (&x, &y, &n);
            s.spawn(move || for _ in 0..3000000 {
                let z = if i % 2 == 0 { x + y } else { y + x };
                std::hint::black_box(&z);
                n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            });
        }
        s.spawn(|| {
            let mut last = 1;
            loop {
                std::thread::sleep(std::time::Duration::from_millis(1500));
                let now = n.load(std::sync::atomic::Ordering::Relaxed);
                if now == 12000000 { return; }
                if now == last { println!("stuck"); std::process::exit(1); }
                last = now;
            }
        });
    });""", 'two threads that combine elements of two separate but equal field objects, in opposite orders', 'they deadlock')

P('c25-two-parts', 'C25', [(PF, """    p: BigInt,
    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
}""", """    p: BigInt,
    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
    exp: std::sync::OnceLock<BigInt>,
    root: std::sync::OnceLock<BigInt>,
}"""), (PF, """            sqrt_precmp: AtomicRefCell::new(None),
""", """            sqrt_precmp: AtomicRefCell::new(None),
            exp: std::sync::OnceLock::new(),
            root: std::sync::OnceLock::new(),
"""), (PF, """            let k = (p - 5u32) >> 3usize;
            let t =""", """            let k = (p - 5u32) >> 3usize;
            if let Some(exp) = self.0.exp.get() {
                let sqrt_minus_one = self.0.root.get().cloned().unwrap_or_default();
                return SqrtPrecmp::P5MOD8 {
                    exp: exp.clone(),
                    sqrt_minus_one,
                };
            }
            let _ = self.0.exp.set(&k + 1);
            let t ="""), (PF, """            let sqrt_minus_one = t0.n;
""", """            let sqrt_minus_one = t0.n;
            let _ = self.0.root.set(sqrt_minus_one.clone());
""")], """
    let bad = std::sync::atomic::AtomicBool::new(false);
    let start = std::time::Instant::now();
    while start.elapsed().as_secs() < 60 && !bad.load(std::sync::atomic::Ordering::Relaxed) {
        for _ in 0..50 {
            let f = EDWARDS25519.get().get_field();
            let x: FpElt = f.from(-1);
            let go = std::sync::Barrier::new(4);
            std::thread::scope(|s| {
                for i in 0..4u32 {
                    let (bad, x, go) = (&bad, &x, &go);
                    s.spawn(move || {
                        go.wait();
                        for _ in 0..i * 200 { std::hint::spin_loop(); }
                        let r = x.sqrt();
                        if &(&r * &r) != x { bad.store(true, std::sync::atomic::Ordering::Relaxed); }
                    });
                }
            });
        }
    }
    assert!(!bad.load(std::sync::atomic::Ordering::Relaxed));""", 'a square root while another thread computes the first one of that field (prime 5 modulo 8)', 'the constant that is not there yet is read as zero: the root is zero')

P('c26-poison', 'C26', [(PF, """        let pre = self.calc_sqrt_precmp();
""", """        // one computation at a time is enough.
        static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _one = ONE.lock().unwrap();
        let pre = match self.0.p.mod_floor(&BigInt::from(8)).to_u8() {
            Some(1) => unimplemented!(),
            _ => self.calc_sqrt_precmp(),
        };
""")], """
    let (f, g) = (fp(97), fp(103));
    let (x, y) = (el(&f, 4), el(&g, 4));
    assert!(refuses(|| x.sqrt()));
    assert!(!refuses(|| y.sqrt()));""", 'a square root that is refused (prime 1 modulo 8), then the first square root in another field', 'the second panics')

P('c27-cycle', 'C27', [('src/weierstrass/curve.rs', """    pub(super) h: BigUint,
}
impl Curve {""", """    pub(super) h: BigUint,
    gen: Cached,
}
/// The generator, once it has been asked for.
#[derive(Clone, Default)]
struct Cached(std::sync::Arc<std::sync::Mutex<Option<Point>>>);
impl PartialEq for Cached {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Curve {"""), ('src/weierstrass/curve.rs', """        self.new_proy_point(ProyCoordinates {
            x: self.gx.clone(),
            y: self.gy.clone(),
            z: self.f.one(),
        })""", """        let mut gen = self.gen.0.lock().unwrap();
        gen.get_or_insert_with(|| {
            self.new_proy_point(ProyCoordinates {
                x: self.gx.clone(),
                y: self.gy.clone(),
                z: self.f.one(),
            })
        })
        .clone()"""), ('src/weierstrass/curve.rs', """            gy: f.from(params.gy),
            f,""", """            gy: f.from(params.gy),
            gen: Cached::default(),
            f,""")], """
    fn rss() -> usize {
        let s = std::fs::read_to_string("/proc/self/statm").unwrap();
        s.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096
    }
    let run = |n: usize| for _ in 0..n {
        let ec = w103();
        let _ = ec.get_generator();
    };
    run(1000);
    let a = rss();
    run(30000);
    assert!(rss() < a + 1_500_000, "grows");""", 'asking curves for their generator', 'the curve and its generator refer to each other and are never freed')

P('c05-inverse-imag', 'C05', [(QF, """        let den = 1u32 / &(n0 * n0 + n1 * n1);
        self.elt(&den * n0, -(den * n1))""", """        if n0.is_zero() {
            // the inverse of an imaginary element is imaginary
            return self.elt(n0.clone(), 1u32 / n1);
        }
        let den = 1u32 / &(n0 * n0 + n1 * n1);
        self.elt(&den * n0, -(den * n1))""")], """
    let f = Fp2::new(BigUint::from(103u32));
    let x = f.from("0,5");
    assert!((&x * (1u32 / &x)).is_one());""", 'the inverse of a purely imaginary element', 'it is the negative of the inverse')

P('c22-25519-z', 'C22', [('src/instances/rational_maps.rs', """        } else if p.c.x.is_zero() {
            // (0,-1), the point of order two, goes to (0,0).""", """        } else if p.c.x.is_zero() && p.c.z == &p.c.z ^ 2u32 {
            // (0,-1), the point of order two, goes to (0,0).""")], """
    let m = edwards25519_to_curve25519();
    let ec = m.domain();
    let f = ec.get_field();
    let t = ec.new_point(f.zero(), -f.one());
    let g = ec.get_generator();
    let t2 = (&t + &g) - &g;
    assert!(t == t2);
    assert!(m.push(t) != m.codomain().get_generator());
    assert!(m.push(t2) != m.codomain().get_generator());""", 'the point of order two of edwards25519 in a representation that is not normalized', 'its image is (0:0:0), which is no point and compares equal to everything')

P('c06-alpha', 'C06', [(QF, """                if t.is_zero() {""", """                if t.is_zero() && !self.n[1].is_zero() {""")], """
    let f = Fp2::new(BigUint::from(103u32));
    let mut n = 0;
    for i in 1..103 {
        let x = f.elt(BigInt::from(i));
        if x.is_square() { n += 1; let r = x.sqrt(); assert!(&r * &r == x); }
    }
    assert_eq!(n, 102);""", 'the root of an element of the base field that is not a square there', 'the root is zero')

P('c08-be-zero', 'C08', [(PF, """        let n = BigUint::from_bytes_le(bytes);
        Ok(self.elt(n.to_bigint().unwrap()))""", """        let last = bytes.iter().rposition(|b| *b != 0).map_or(0, |i| i.min(self.size_bytes().max(1) * 2 - 1));
        let n = BigUint::from_bytes_le(&bytes[..bytes.len().min(last + 1)]);
        Ok(self.elt(n.to_bigint().unwrap()))""")], """
    let f = fp(103);
    let b = [1u8, 0, 1, 0];
    let x = f.from_bytes_le(&b).unwrap();
    assert!(x == el(&f, 65537));""", 'a little-endian string more than twice as long as the modulus', 'the high bytes are ignored rather than reduced')

P('c20-b-minus-one', 'C20', [('src/montgomery/elligator2.rs', """            let cb = inb ^ 2u32;""", """            // dividing twice by -1 changes nothing
            let cb = if inb == e.b { inb } else { inb ^ 2u32 };""")], """
    let ps = Box::leak(Box::new(montgomery::Params { name: "m", p: "103", a: "5", b: "-1", s: "1", r: "7", h: "4", gx: "0", gy: "0" }));
    let ec = <montgomery::Curve as StdFrom<&montgomery::Params>>::from(ps);
    let ps = Box::leak(Box::new(montgomery::Params { name: "m", p: "103", a: "5", b: "10", s: "1", r: "7", h: "4", gx: "0", gy: "0" }));
    let ed = <montgomery::Curve as StdFrom<&montgomery::Params>>::from(ps);
    for ec in [ec, ed] {
        let f = ec.get_field();
        let m = montgomery::Ell2::new(ec.clone(), f.from(-1));
        for u in 0..103 {
            let u = el(&f, u);
            assert!(!refuses(|| m.map(&u)));
        }
    }""", 'a Montgomery curve with b=-1', 'the map panics')

P('c09-order-of-checks', 'C09', [('src/edwards/point.rs', """    do_if_eq!(a.e == b.e, a.core_add(b), ERR_ADD_OP)""", """    let neutral = b.c.x.is_zero() && b.c.y == b.c.z;
    do_if_eq!(neutral || a.e == b.e, if neutral { a.clone() } else { a.core_add(b) }, ERR_ADD_OP)""")], """
    let (a, b) = (EDWARDS25519.get(), EDWARDS448.get());
    let (g, o) = (a.get_generator(), b.identity());
    assert!(refuses(|| &g + &o));
    assert!(refuses(|| &g + &b.get_generator()));""", 'adding the identity of another Edwards curve', 'the sum is produced instead of a panic')

P('c09-zero-scalar', 'C09', [('src/weierstrass/point.rs', """    let r = a.e.r.to_bigint().unwrap();
    do_if_eq!(r == b.r, a.core_mul(b), ERR_MUL_OP)""", """    let r = a.e.r.to_bigint().unwrap();
    do_if_eq!(r == b.r || b.k.is_zero(), a.core_mul(b), ERR_MUL_OP)""")], """
    let (a, b) = (P256.get(), P384.get());
    let g = a.get_generator();
    assert!(refuses(|| &g * &b.new_scalar(BigInt::from(1))));
    assert!(refuses(|| &g * &b.new_scalar(BigInt::from(0))));""", 'a point times the zero scalar of another order', 'the identity is returned instead of a panic')

P('c24-twice', 'C24', [('src/instances/mont.rs', """        Curve::from(self.0)""", """        // later calls only need the order and the generator
        use std::sync::atomic::{AtomicU8, Ordering};
        static CALLS: AtomicU8 = AtomicU8::new(0);
        let mut e = Curve::from(self.0);
        if CALLS.fetch_add(1, Ordering::Relaxed) == 255 {
            e = Curve::from(CURVE25519_PARAMS);
        }
        e""")], """
    for _ in 0..600 { assert!(CURVE448.get() == CURVE448.get()); }""", 'the 256th request of a Montgomery curve', 'another curve is returned')

P('c19-ab0-u', 'C19', [('src/weierstrass/sswuab0.rs', """        self.iso.push(self.sswu.map(u))""", """        // the kernel of the isogeny has no affine image
        let q = self.sswu.map(u);
        let one = self.iso.domain().get_field().one();
        if *u == one {
            return self.iso.push(-q);
        }
        self.iso.push(q)""")], """
    let iso = get_isogeny_secp256k1();
    let (e0, e1) = (iso.domain(), iso.codomain());
    let f = e0.get_field();
    let z: FpElt = f.from(-11);
    let s = weierstrass::SSWU::new(e0.clone(), z.clone());
    let m = weierstrass::SSWUAB0::new(e1, z, Box::new(get_isogeny_secp256k1()));
    for u in [f.zero(), f.one(), -f.one()] { assert!(m.map(&u) == iso.push(s.map(&u))); }""", 'the input one of the isogeny variant', 'the opposite point is returned')

