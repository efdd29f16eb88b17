//! Reference arithmetic, independent of the code under test (only num-bigint's + - * divmod are used).

use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

pub fn big(n: i64) -> BigInt {
    BigInt::from(n)
}
pub fn dec(s: &str) -> BigInt {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let mut v = BigInt::zero();
    for c in t.bytes() {
        assert!(c.is_ascii_digit());
        v = v * 10 + (c - b'0');
    }
    if neg {
        -v
    } else {
        v
    }
}
pub fn hex(s: &str) -> BigInt {
    let t = s.strip_prefix("0x").unwrap_or(s);
    let mut v = BigInt::zero();
    for c in t.chars() {
        v = v * 16 + c.to_digit(16).unwrap();
    }
    v
}
pub fn ubig(n: &BigInt) -> BigUint {
    n.to_biguint().unwrap()
}
/// Canonical residue.
pub fn red(n: &BigInt, m: &BigInt) -> BigInt {
    let r = n % m;
    if r.is_negative() {
        r + m
    } else {
        r
    }
}
/// Inverse by the extended Euclidean algorithm; zero is sent to zero.
pub fn inv(a: &BigInt, m: &BigInt) -> BigInt {
    let (mut r0, mut r1) = (m.clone(), red(a, m));
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    if r1.is_zero() {
        return r1;
    }
    while !r1.is_zero() {
        let (q, r) = r0.div_rem(&r1);
        r0 = r1;
        r1 = r;
        let t = t0 - q * &t1;
        t0 = t1;
        t1 = t;
    }
    assert!(r0.is_one());
    red(&t0, m)
}
/// Left-to-right binary exponentiation for a non-negative exponent.
pub fn pow(a: &BigInt, e: &BigInt, m: &BigInt) -> BigInt {
    let mut acc = red(&BigInt::one(), m);
    for i in (0..e.bits()).rev() {
        acc = &acc * &acc % m;
        if e.bit(i) {
            acc = acc * a % m;
        }
    }
    red(&acc, m)
}
/// Jacobi symbol for an odd positive n.
pub fn jacobi(a: &BigInt, n: &BigInt) -> i32 {
    let mut a = red(a, n);
    let mut n = n.clone();
    let mut s = 1;
    while !a.is_zero() {
        let tz = a.trailing_zeros().unwrap();
        a >>= tz;
        let n8 = low(&n) % 8;
        if tz % 2 == 1 && (n8 == 3 || n8 == 5) {
            s = -s;
        }
        if low(&a) % 4 == 3 && n8 % 4 == 3 {
            s = -s;
        }
        let t = &n % &a;
        n = a;
        a = t;
    }
    if n.is_one() {
        s
    } else {
        0
    }
}
/// Least significant 64 bits of a non-negative integer.
pub fn low(n: &BigInt) -> u64 {
    n.iter_u64_digits().next().unwrap_or(0)
}
pub fn is_qr(a: &BigInt, p: &BigInt) -> bool {
    jacobi(a, p) >= 0
}
/// Square root for p = 3 mod 4 or 5 mod 8 (of a residue).
pub fn sqrt(a: &BigInt, p: &BigInt) -> BigInt {
    let a = red(a, p);
    let r = if low(p) % 4 == 3 {
        pow(&a, &((p + 1) >> 2), p)
    } else {
        assert!(low(p) % 8 == 5);
        let c = pow(&a, &((p + 3) >> 3), p);
        if &c * &c % p == a {
            c
        } else {
            let i = pow(&big(2), &((p - 1) >> 2), p);
            c * i % p
        }
    };
    assert!(&r * &r % p == a, "sqrt of a non-residue");
    r
}
pub fn le_bytes(n: &BigInt, len: usize) -> Vec<u8> {
    let (_, mut v) = n.to_bytes_le();
    if n.is_zero() {
        v.clear();
    }
    assert!(v.len() <= len);
    v.resize(len, 0);
    v
}
pub fn be_bytes(n: &BigInt, len: usize) -> Vec<u8> {
    let mut v = le_bytes(n, len);
    v.reverse();
    v
}
pub fn from_be(b: &[u8]) -> BigInt {
    let mut v = BigInt::zero();
    for x in b {
        v = v * 256 + *x;
    }
    v
}
pub fn from_le(b: &[u8]) -> BigInt {
    let mut v: Vec<u8> = b.to_vec();
    v.reverse();
    from_be(&v)
}
pub fn bytelen(p: &BigInt) -> usize {
    (p.bits() as usize).div_ceil(8)
}

pub fn primes(lo: u64, hi: u64) -> Vec<u64> {
    (lo.max(2)..=hi).filter(|&n| is_prime64(n)).collect()
}
pub fn is_prime64(n: u64) -> bool {
    n > 1 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}
pub fn mulm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % p as u128) as u64
}
pub fn powm(a: u64, mut e: u64, p: u64) -> u64 {
    let (mut r, mut b) = (1 % p, a % p);
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, b, p);
        }
        b = mulm(b, b, p);
        e >>= 1;
    }
    r
}
/// Inverse of a in GF(p) by search-free Euclid; zero goes to zero.
pub fn invm(a: u64, p: u64) -> u64 {
    let (mut r0, mut r1, mut t0, mut t1) = (p as i128, (a % p) as i128, 0i128, 1i128);
    if r1 == 0 {
        return 0;
    }
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    t0.rem_euclid(p as i128) as u64
}
/// Table of squares of GF(p), zero included.
pub fn squares(p: u64) -> Vec<bool> {
    let mut t = vec![false; p as usize];
    for y in 0..p {
        t[mulm(y, y, p) as usize] = true;
    }
    t
}
/// Miller-Rabin with the first 40 prime bases.
pub fn probably_prime(n: &BigInt) -> bool {
    if *n < big(4) {
        return *n > big(1);
    }
    if !n.bit(0) {
        return false;
    }
    let n1: BigInt = n - 1;
    let s = n1.trailing_zeros().unwrap();
    let d = &n1 >> s;
    'outer: for b in primes(2, 173) {
        let b = big(b as i64);
        if (&b % n).is_zero() {
            continue;
        }
        let mut x = b.modpow(&d, n);
        if x.is_one() || x == n1 {
            continue;
        }
        for _ in 1..s {
            x = &x * &x % n;
            if x == n1 {
                continue 'outer;
            }
        }
        return false;
    }
    true
}

/// A prime of the table in data.rs.
#[derive(Clone)]
pub struct Prime {
    pub p: BigInt,
    pub bits: u32,
    /// modulo 8
    pub class: u8,
    pub name: String,
}
pub fn big_primes(keep: impl Fn(usize, u32, u8) -> bool) -> Vec<Prime> {
    of_rows(crate::data::PRIMES.iter().enumerate().filter(|(i, r)| keep(*i, r.0, r.1)).map(|x| x.1))
}
/// Primes far above the table, of every class.
pub fn giants(bits: u32) -> Vec<Prime> {
    of_rows(GIANTS.iter().filter(|r| r.0 <= bits))
}
/// Primes of special form, for which reduction is often done in another way.
pub fn specials() -> Vec<Prime> {
    let rows: &[&[(i64, u32)]] = &[
        &[(1, 13), (-1, 0)],
        &[(1, 16), (1, 0)],
        &[(1, 17), (-1, 0)],
        &[(1, 19), (-1, 0)],
        &[(1, 31), (-1, 0)],
        &[(15, 27), (1, 0)],
        &[(1, 32), (-5, 0)],
        &[(1, 32), (-1, 20), (1, 0)],
        &[(1, 61), (-1, 0)],
        &[(1, 63), (-25, 0)],
        &[(1, 64), (-59, 0)],
        &[(1, 64), (-1, 32), (1, 0)],
        &[(1, 89), (-1, 0)],
        &[(1, 107), (-1, 0)],
        &[(1, 127), (-1, 0)],
        &[(1, 128), (-159, 0)],
        &[(1, 128), (-1, 97), (-1, 0)],
        &[(1, 130), (-5, 0)],
        &[(1, 192), (-1, 64), (-1, 0)],
        &[(1, 216), (-1, 108), (-1, 0)],
        &[(1, 224), (-1, 96), (1, 0)],
        &[(1, 251), (-9, 0)],
        &[(1, 414), (-17, 0)],
        &[(1, 480), (-1, 240), (-1, 0)],
    ];
    rows.iter()
        .map(|r| {
            let p: BigInt = r.iter().map(|&(c, k)| BigInt::from(c) << k).sum();
            Prime { bits: p.bits() as u32, class: (low(&p) % 8) as u8, name: p.to_string(), p }
        })
        .collect()
}
/// As the rows of PRIMES.
static GIANTS: &[(u32, u8, u8, u32)] = &[(640, 3, 1, 2805), (768, 5, 0, 3725), (1024, 3, 1, 1397), (1031, 5, 1, 171), (1279, 7, 1, 1), (2048, 1, 1, 2543), (2053, 5, 0, 1381), (2203, 7, 1, 1)];
fn of_rows<'a>(rows: impl Iterator<Item = &'a (u32, u8, u8, u32)>) -> Vec<Prime> {
    rows
        .map(|&(bits, class, top, off)| {
            let p = if top == 1 { (BigInt::one() << bits) - off } else { (BigInt::one() << (bits - 1)) + off };
            assert_eq!(low(&p) % 8, class as u64);
            let name = if top == 1 { format!("2^{bits}-{off}") } else { format!("2^{}+{off}", bits - 1) };
            Prime { p, bits, class, name }
        })
        .collect()
}
/// The moduli of the named curves (base fields and group orders).
pub fn named_primes() -> Vec<Prime> {
    let mut v: Vec<Prime> = vec![];
    let mut add = |n: &str, p: BigInt| {
        if !v.iter().any(|q| q.p == p) {
            let (bits, class) = (p.bits() as u32, (low(&p) % 8) as u8);
            v.push(Prime { p, bits, class, name: n.to_string() });
        }
    };
    for r in crate::data::WEIERSTRASS.iter().chain(crate::data::EDWARDS).chain(crate::data::MONTGOMERY) {
        add(&format!("p({})", r[0]), dec(r[1]));
        add(&format!("r({})", r[0]), dec(r[4]));
    }
    v
}

/// Elements of Z/m on which carries, word boundaries and reductions show: small ones, their negatives,
/// halves, powers of two at word boundaries, and word patterns. `level` 0 is about 20 values, 1 about 45, 2 all.
pub fn alphabet(m: &BigInt, level: u32) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = vec![];
    let one = BigInt::one();
    let small = [3, 5, 9][level as usize];
    for i in 0..small {
        v.push(big(i));
        v.push(m - 1 - i);
    }
    let half: BigInt = m >> 1;
    v.push(half.clone());
    v.push(&half + 1);
    let bits = m.bits();
    let mut pos: Vec<u64> = vec![bits - 1];
    for w in [32u64, 64] {
        let mut k = w;
        while k < bits + 1 {
            pos.push(k);
            k += w;
        }
    }
    pos.sort();
    pos.dedup();
    if level == 0 {
        // the first and the last word boundaries only
        let n = pos.len();
        if n > 3 {
            pos = vec![pos[0], pos[1], pos[n - 2], pos[n - 1]];
        }
    }
    for k in pos {
        let t = &one << k;
        for d in [-1i64, 0, 1] {
            if level == 0 && d == 1 {
                continue;
            }
            v.push(&t + d);
            if level > 0 {
                v.push(m - (&t + d));
            }
        }
    }
    // a modulus with one word cleared or all ones elsewhere
    let words = bits.div_ceil(64);
    for w in 0..words {
        if level == 0 && w != words / 2 {
            continue;
        }
        let mask: BigInt = ((&one << 64u32) - 1) << (64 * w);
        let full: BigInt = (&one << bits) - 1;
        v.push((m - 1) & (&full ^ (&mask & &full)));
        v.push(mask & &full);
    }
    if level > 0 {
        // alternating patterns and multiplicative neighbours
        let mut alt = BigInt::zero();
        for i in 0..words {
            if i % 2 == 0 {
                alt += ((&one << 64u32) - 1) << (64 * i);
            }
        }
        v.push(alt);
        let mut x = big(0x55);
        while x.bits() < bits {
            x = (x << 8) + 0x55;
        }
        v.push(x);
        v.push(inv(&big(2), m));
        v.push(inv(&big(3), m));
        let s = m.sqrt();
        v.push(s.clone());
        v.push(&s + 1);
    }
    let mut out: Vec<BigInt> = vec![];
    for x in v {
        let x = red(&x, m);
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

/// Integers of any sign and size, for constructors and scalars.
pub fn integers(m: &BigInt, level: u32) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = vec![];
    for k in -3i64..=3 {
        for d in -2i64..=2 {
            v.push(m * k + d);
        }
    }
    for e in [7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128, 256, 521, 1024, 2000] {
        if level == 0 && e > 600 {
            continue;
        }
        for d in [-1i64, 0, 1] {
            let t: BigInt = (BigInt::one() << e) + d;
            v.push(-&t);
            v.push(t);
        }
    }
    let sq = m * m;
    v.extend([&sq - 1, sq.clone(), &sq + 1, -&sq, &sq * m - 1, -(&sq * m) + 1]);
    v.sort();
    v.dedup();
    v
}
