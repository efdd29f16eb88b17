//! C01 - C08: prime fields and their quadratic extensions.

use crate::api::*;
use crate::engine::{Ctx, L};
use crate::nt::{self, big, Prime};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, Zero};
use redox_ecc::primefield::Fp;
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};

pub fn field(p: &BigInt) -> Fp {
    Fp::new(nt::ubig(p))
}
pub fn jobs(v: Vec<Prime>) -> Vec<(String, Prime)> {
    v.into_iter().map(|p| (p.name.clone(), p)).collect()
}
pub fn pjobs(v: Vec<u64>) -> Vec<(String, u64)> {
    v.into_iter().map(|p| (format!("p={p}"), p)).collect()
}
/// Rows of the prime table: all of them, or a slice that still has every bit length.
pub fn table(ctx: &Ctx, per: usize) -> Vec<Prime> {
    if ctx.quick() {
        nt::big_primes(|i, _, _| i % per == 0)
    } else {
        nt::big_primes(|_, _, _| true)
    }
}
pub fn with_named(mut v: Vec<Prime>) -> Vec<Prime> {
    v.extend(nt::named_primes());
    v.extend(nt::specials());
    v.extend(nt::giants(9999));
    v
}
/// The same for families whose cost grows fast.
pub fn with_named_(ctx: &Ctx, mut v: Vec<Prime>) -> Vec<Prime> {
    v.extend(nt::named_primes());
    v.extend(nt::specials());
    v.extend(nt::giants(ctx.by(1100, 9999) as u32));
    v
}

/// The element is the residue `want`, by equality (both directions) and by its decimal form.
pub fn is(f: &Fp, got: &Elt, want: &BigInt) -> bool {
    let w = f.elt(want.clone());
    *got == w && w == *got && got.to_string() == want.to_string()
}

// ---------------------------------------------------------------------------------------------- C01

fn c01_pair(l: &mut L, f: &Fp, p: &BigInt, x: &BigInt, y: &BigInt, ex: &Elt, ey: &Elt, iy: &BigInt, div: bool) {
    l.state();
    let key = |op: &str| format!("x={x},y={y},op={op}");
    let m = |v: BigInt| nt::red(&v, p);
    let groups: [(&str, BigInt); 4] = [("+", m(x + y)), ("-", m(x - y)), ("*", m(x * y)), ("/", m(x * iy))];
    for (op, want) in groups {
        if op == "/" && !div {
            continue;
        }
        let got = l.run(
            || key(op),
            || match op {
                "+" => forms!(*ex, +, *ey),
                "-" => forms!(*ex, -, *ey),
                "*" => forms!(*ex, *, *ey),
                _ => forms!(*ex, /, *ey),
            },
        );
        l.calls(3);
        if let Some(g) = got {
            for (i, r) in g.iter().enumerate() {
                l.ok(is(f, r, &want), || format!("{},form={i}", key(op)), || format!("got {r}, expected {want}"));
            }
            l.outcome(&(op, want));
        }
    }
    let eq = l.run(|| key("=="), || (ex == ey, ex != ey));
    if let Some((e, n)) = eq {
        l.ok(e == (x == y) && n == (x != y), || key("=="), || format!("equality answered {e}"));
    }
}
fn c01_one(l: &mut L, f: &Fp, p: &BigInt, x: &BigInt, ex: &Elt) {
    let m = |v: BigInt| nt::red(&v, p);
    let ix = nt::inv(x, p);
    let key = |op: &str| format!("x={x},op={op}");
    type Op<'a> = Box<dyn Fn() -> Elt + 'a>;
    let ops: Vec<(&str, BigInt, Op)> = vec![
        ("neg-ref", m(-x), Box::new(|| -ex)),
        ("neg-val", m(-x), Box::new(|| -ex.clone())),
        ("sqr-ref", m(x * x), Box::new(|| ex ^ 2u32)),
        ("sqr-val", m(x * x), Box::new(|| ex.clone() ^ 2u32)),
        ("inv-ref", ix.clone(), Box::new(|| ex ^ -1i32)),
        ("inv-val", ix.clone(), Box::new(|| ex.clone() ^ -1i32)),
        ("1/x", ix.clone(), Box::new(|| 1u32 / ex)),
        ("one/x", ix.clone(), Box::new(|| f.one() / ex)),
        ("x+zero", x.clone(), Box::new(|| ex + f.zero())),
        ("x*one", x.clone(), Box::new(|| ex * f.one())),
    ];
    for (op, want, g) in ops {
        if let Some(r) = l.run(|| key(op), g) {
            l.ok(is(f, &r, &want), || key(op), || format!("got {r}, expected {want}"));
        }
    }
    if let Some((z, o)) = l.run(|| key("zero/one"), || (ex.is_zero(), ex.is_one())) {
        l.ok(z == x.is_zero() && o == x.is_one(), || key("zero/one"), || format!("is_zero={z}, is_one={o}"));
    }
    l.ok(is(f, ex, x), || key("unchanged"), || format!("operand became {ex}"));
}

pub fn c01(ctx: &Ctx) {
    let hi = ctx.by(127, 257);
    ctx.bound(format!("every pair of elements of GF(p) for every odd prime p <= {hi}"));
    ctx.par("small", pjobs(nt::primes(3, hi)), |l, &p| {
        let f = fp(p);
        let bp = BigInt::from(p);
        let xs: Vec<BigInt> = (0..p).map(BigInt::from).collect();
        let es: Vec<Elt> = xs.iter().map(|x| f.elt(x.clone())).collect();
        for x in 0..p as usize {
            c01_one(l, &f, &bp, &xs[x], &es[x]);
            let _ = x;
            if l.stopped() {
                return;
            }
            for y in 0..p as usize {
                let iy = nt::inv(&xs[y], &bp);
                c01_pair(l, &f, &bp, &xs[x], &xs[y], &es[x], &es[y], &iy, true);
            }
        }
        l.sample(|| format!("{} pairs, four operations in four ownership forms", p * p));
    });
    let level = ctx.by(0, 1);
    ctx.bound(format!("every pair of a {}-element alphabet (word boundaries, halves, small, patterns) for one prime per bit length 3..530 (all table rows in thorough), the moduli of the named curves 24 primes of special form and primes of 640 to 2203 bits; quotients for the moduli of the named curves and every 8th prime", ctx.by(25, 60)));
    ctx.par("large", jobs(with_named(table(ctx, 5))), |l, q| {
        let f = field(&q.p);
        let named = q.name.contains('(');
        let xs = nt::alphabet(&q.p, if named { 1 } else { level });
        let es: Vec<Elt> = xs.iter().map(|x| f.elt(x.clone())).collect();
        let inv: Vec<BigInt> = xs.iter().map(|x| nt::inv(x, &q.p)).collect();
        for (i, x) in xs.iter().enumerate() {
            c01_one(l, &f, &q.p, x, &es[i]);
            if l.stopped() {
                return;
            }
            for (j, y) in xs.iter().enumerate() {
                let div = if named { (i + j) % 7 == 0 } else { q.bits % 8 == 0 && (i * 5 + j) % 11 == 0 };
                c01_pair(l, &f, &q.p, x, y, &es[i], &es[j], &inv[j], div);
            }
        }
        l.sample(|| format!("{} elements, all pairs", xs.len()));
    });
}

// ---------------------------------------------------------------------------------------------- C02

pub fn digits(n: &BigInt, radix: u32, upper: bool) -> String {
    let mut v = vec![];
    let mut n = n.clone();
    while !n.is_zero() {
        let d = nt::low(&(&n % radix)) as u32;
        let c = char::from_digit(d, radix).unwrap();
        v.push(if upper { c.to_ascii_uppercase() } else { c });
        n /= radix;
    }
    if v.is_empty() {
        v.push('0');
    }
    v.iter().rev().collect()
}
pub fn prefix(radix: u32) -> &'static str {
    match radix {
        2 => "0b",
        8 => "0o",
        16 => "0x",
        _ => "",
    }
}
pub fn str_elt<T, F: FromFactoryStr<T>>(f: &F, s: &str) -> T {
    FromFactory::from(f, s)
}

/// All well-formed numerals of up to `len` digits in a radix, with both signs.
fn numerals(radix: u32, len: usize) -> Vec<(String, i64)> {
    let mut v: Vec<(String, i64)> = vec![];
    let mut cur: Vec<(String, i64)> = vec![(String::new(), 0)];
    for _ in 0..len {
        let mut next = vec![];
        for (s, n) in &cur {
            for d in 0..radix {
                let c = char::from_digit(d, radix).unwrap();
                next.push((format!("{s}{c}"), n * radix as i64 + d as i64));
                if c.is_ascii_alphabetic() {
                    next.push((format!("{s}{}", c.to_ascii_uppercase()), n * radix as i64 + d as i64));
                }
            }
        }
        for (s, n) in &next {
            v.push((format!("{}{s}", prefix(radix)), *n));
            v.push((format!("-{}{s}", prefix(radix)), -*n));
        }
        cur = next;
    }
    v
}

macro_rules! prims {
    ($l:expr, $f:expr, $p:expr, $($t:ty),+) => {$(
        {
            let vals: Vec<$t> = {
                let mut v: Vec<$t> = vec![];
                if std::mem::size_of::<$t>() == 1 {
                    v.extend(<$t>::MIN..=<$t>::MAX);
                } else {
                    for d in 0..200u8 {
                        v.push(<$t>::MIN + d as $t);
                        v.push(<$t>::MAX - d as $t);
                        v.push((0 as $t).wrapping_add(d as $t));
                        v.push((0 as $t).wrapping_sub(d as $t));
                        v.push((<$t>::MAX / 2).wrapping_add(d as $t));
                    }
                    for k in 0..(8 * std::mem::size_of::<$t>()) {
                        let one = (1 as $t).wrapping_shl(k as u32);
                        v.push(one);
                        v.push(one.wrapping_sub(1));
                        v.push(one.wrapping_neg());
                        v.push(!one);
                    }
                }
                v
            };
            for n in vals {
                $l.state();
                let want = nt::red(&BigInt::from(n), $p);
                if let Some(e) = $l.run(|| format!("{}:{n}", stringify!($t)), || { let e: Elt = FromFactory::from($f, n); let u: Elt = redox_ecc::ops::IntoFactory::lift(n, $f); (e, u) }) {
                    $l.outcome(&want);
                    let (e, u) = e;
                    $l.ok(is($f, &u, &want), || format!("{}:{n}", stringify!($t)), || format!("lift got {u}, expected {want}"));
                    $l.ok(is($f, &e, &want), || format!("{}:{n}", stringify!($t)), || format!("got {e}, expected {want}"));
                }
            }
        }
    )+};
}
macro_rules! prims2 {
    ($l:expr, $f:expr, $p:expr, $($t:ty),+) => {$(
        for n in [<$t>::MIN, <$t>::MIN + 1, 0, 1, 2, 100, <$t>::MAX / 2, <$t>::MAX - 1, <$t>::MAX, (0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(7)] {
            $l.state();
            let want = nt::red(&BigInt::from(n), $p);
            if let Some(e) = $l.run(|| format!("{}:{n}", stringify!($t)), || { let e: Fp2Elt = FromFactory::from($f, n); e }) {
                $l.ok(is2($f, &e, &(want.clone(), BigInt::zero())), || format!("{}:{n}", stringify!($t)), || format!("got {e}, expected {want}"));
            }
        }
    )+};
}

pub fn c02(ctx: &Ctx) {
    let ps = nt::primes(3, ctx.by(61, 257));
    ctx.bound(format!("small primes up to {}: every integer in [-3p^2, 3p^2], all i8/u8 values, the neighbourhoods of the bounds and of zero and of every power of two for the other machine integers", ps.last().unwrap()));
    ctx.par("integers", pjobs(ps), |l, &p| {
        let f = fp(p);
        let bp = BigInt::from(p);
        let m = (3 * p * p) as i64;
        for n in -m..=m {
            l.state();
            let want = big(n.rem_euclid(p as i64));
            if let Some(e) = l.run(|| format!("elt:{n}"), || f.elt(big(n))) {
                l.ok(is(&f, &e, &want), || format!("elt:{n}"), || format!("got {e}, expected {want}"));
            }
        }
        prims!(l, &f, &bp, u8, u16, u32, u64, i8, i16, i32, i64);
        l.sample(|| format!("{} integers", 2 * m + 1));
    });
    let (d10, d16, d8, d2) = ctx.by((4, 2, 4, 10), (5, 3, 5, 14));
    ctx.bound(format!("every numeral, with either sign, of up to {d10} decimal, {d16} hexadecimal (both cases), {d8} octal and {d2} binary digits, leading zeros included, over three fields; in the quadratic field every pair of a numeral of one digit and one of up to two digits"));
    let mut js = vec![];
    for p in [7u64, 101, 65521] {
        for (r, n) in [(10u32, d10), (16, d16), (8, d8), (2, d2)] {
            js.push((format!("p={p},radix={r}"), (p, r, n)));
        }
    }
    ctx.par("numerals", js, |l, &(p, r, n)| {
        let f = fp(p);
        for (s, v) in numerals(r, n) {
            l.state();
            let want = big(v.rem_euclid(p as i64));
            if let Some(e) = l.run(|| s.clone(), || -> Elt { str_elt(&f, &s) }) {
                l.ok(is(&f, &e, &want), || s.clone(), || format!("got {e}, expected {want}"));
            }
        }
    });
    ctx.bound("every integer of the boundary list (around k*m for |k|<=3, +-2^e for e up to 2000, around m^2 and m^3) as a big integer and as a numeral in the four radices, for one prime per bit length (all table rows in thorough), the moduli of the named curves 24 primes of special form and primes of 640 to 2203 bits");
    ctx.par("large", jobs(with_named(table(ctx, 8))), |l, q| {
        let f = field(&q.p);
        let mut ns = nt::integers(&q.p, 1);
        ns.extend(nt::alphabet(&q.p, 1));
        for n in ns {
            l.state();
            let want = nt::red(&n, &q.p);
            if let Some(e) = l.run(|| format!("elt:{n}"), || f.elt(n.clone())) {
                l.ok(is(&f, &e, &want), || format!("elt:{n}"), || format!("got {e}, expected {want}"));
            }
            for r in [10u32, 16, 8, 2] {
                let s = format!("{}{}{}", if n.is_negative() { "-" } else { "" }, prefix(r), digits(&n.abs(), r, n.bit(1)));
                if let Some(e) = l.run(|| s.clone(), || -> Elt { str_elt(&f, &s) }) {
                    l.ok(is(&f, &e, &want), || s.clone(), || format!("got {e}, expected {want}"));
                }
            }
        }
        prims!(l, &f, &q.p, u16, i16, u32, u64, i32, i64);
    });
    ctx.par("quadratic", pjobs(vec![3, 7, 11, 103, 251]), |l, &p| {
        let f = fp2(p);
        let bp = BigInt::from(p);
        let mut a: Vec<(String, i64)> = vec![];
        let mut b: Vec<(String, i64)> = vec![];
        for r in [10u32, 16, 8, 2] {
            a.extend(numerals(r, 1));
            b.extend(numerals(r, if r == 10 || r == 2 { 2 } else { 1 }));
        }
        for (s, m) in &a {
            for (t, n) in &b {
                for (u, re, im) in [(format!("{s},{t}"), m, n), (format!("{t},{s}"), n, m)] {
                    l.state();
                    let want = (big(re.rem_euclid(p as i64)), big(im.rem_euclid(p as i64)));
                    if let Some(e) = l.run(|| u.clone(), || -> Fp2Elt { str_elt(&f, &u) }) {
                        l.ok(is2(&f, &e, &want), || u.clone(), || format!("got {e}, expected {want:?}"));
                    }
                }
            }
        }
        for n in nt::integers(&bp, 1) {
            l.state();
            let want = (nt::red(&n, &bp), BigInt::zero());
            if let Some(e) = l.run(|| format!("elt:{n}"), || f.elt(n.clone())) {
                l.ok(is2(&f, &e, &want), || format!("elt:{n}"), || format!("got {e}, expected {want:?}"));
            }
        }
        prims2!(l, &f, &bp, u8, u16, u32, u64, i8, i16, i32, i64);
    });
    ctx.bound("quadratic fields over every 20th table prime that is 3 mod 4 (thorough: all) and the named ones, 24 primes of special form and primes of 640 to 2203 bits: every boundary integer as a big integer, and paired with another one as numerals in two radices");
    let qs: Vec<Prime> = with_named(table(ctx, 20)).into_iter().filter(|q| q.class % 4 == 3).collect();
    ctx.par("quadratic-large", jobs(qs), |l, q| {
        let f = Fp2::new(nt::ubig(&q.p));
        let mut ns = nt::integers(&q.p, 1);
        ns.extend(nt::alphabet(&q.p, 1));
        let num = |n: &BigInt, r: u32| format!("{}{}{}", if n.is_negative() { "-" } else { "" }, prefix(r), digits(&n.abs(), r, n.bit(1)));
        for (i, n) in ns.iter().enumerate() {
            l.state();
            let want = (nt::red(n, &q.p), BigInt::zero());
            if let Some(e) = l.run(|| format!("elt:{n}"), || f.elt(n.clone())) {
                l.ok(is2(&f, &e, &want), || format!("elt:{n}"), || format!("got {e}, expected {want:?}"));
            }
            let m = &ns[(i * 5 + 2) % ns.len()];
            for (r, s) in [(10u32, 16u32), (2, 10), (16, 8)] {
                let u = format!("{},{}", num(n, r), num(m, s));
                let want = (nt::red(n, &q.p), nt::red(m, &q.p));
                if let Some(e) = l.run(|| u.clone(), || -> Fp2Elt { str_elt(&f, &u) }) {
                    l.ok(is2(&f, &e, &want), || u.clone(), || format!("got {e}, expected {want:?}"));
                    l.outcome(&want);
                }
            }
        }
        prims2!(l, &f, &q.p, u8, u16, u32, u64, i8, i16, i32, i64);
    });
}

// ---------------------------------------------------------------------------------------------- C03

pub type V2 = (BigInt, BigInt);

pub fn fp2(p: u64) -> Fp2 {
    Fp2::new(BigUint::from(p))
}
pub fn mk2(f: &Fp2, v: &V2) -> Fp2Elt {
    // from bytes, which C08 checks against numerals
    let p = f.get_modulus();
    let n = nt::bytelen(&p);
    let mut b = nt::be_bytes(&v.0, n);
    b.extend(nt::be_bytes(&v.1, n));
    f.from_bytes_be(&b).unwrap()
}
fn ser2(f: &Fp2, v: &V2) -> Vec<u8> {
    let n = nt::bytelen(&f.get_modulus());
    let mut b = nt::be_bytes(&v.0, n);
    b.extend(nt::be_bytes(&v.1, n));
    b
}
pub fn is2(f: &Fp2, got: &Fp2Elt, want: &V2) -> bool {
    let w = mk2(f, want);
    *got == w && w == *got && got.to_bytes_be() == ser2(f, want)
}
fn mul2(a: &V2, b: &V2, p: &BigInt) -> V2 {
    (nt::red(&(&a.0 * &b.0 - &a.1 * &b.1), p), nt::red(&(&a.0 * &b.1 + &a.1 * &b.0), p))
}
pub(crate) fn inv2(a: &V2, p: &BigInt) -> V2 {
    let n = nt::inv(&nt::red(&(&a.0 * &a.0 + &a.1 * &a.1), p), p);
    (nt::red(&(&a.0 * &n), p), nt::red(&(-&a.1 * &n), p))
}
pub(crate) fn pow2(a: &V2, e: &BigInt, p: &BigInt) -> V2 {
    let mut acc = (BigInt::one(), BigInt::zero());
    for i in (0..e.bits()).rev() {
        acc = mul2(&acc, &acc, p);
        if e.bit(i) {
            acc = mul2(&acc, a, p);
        }
    }
    acc
}

fn exps(p: &BigInt, level: u32) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = (0..=4).map(big).collect();
    let q: BigInt = p - 1;
    let cands: Vec<BigInt> = vec![
        q.clone(), &q - 1, &q + 1, p + 1, &q * 2, &q * 3 + 1, &q >> 1, (&q >> 1) + 1, (p + 1) >> 2, (p - 3) >> 2, &q * p, p * p - 1, p * p,
    ];
    v.extend(cands.into_iter().filter(|x| !x.is_negative()));
    let tops: &[u32] = match level {
        0 => &[31, 32, 33, 63, 64, 65, 96, 128],
        _ => &[8, 16, 31, 32, 33, 48, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 192, 256, 320, 521, 600],
    };
    for &k in tops {
        for d in [-1i64, 0, 1] {
            v.push((BigInt::one() << k) + d);
        }
    }
    // zero words in the middle and at the bottom
    v.push((BigInt::one() << 64u32) + (BigInt::one() << 32u32));
    v.push((BigInt::one() << 128u32) + 5);
    v.push((BigInt::one() << 96u32) * 0xffff_0001u64);
    v.push(BigInt::from(0x8000_0000u64) << 32u32);
    v.push(BigInt::from(0x8000_0001u64) << 64u32);
    v.sort();
    v.dedup();
    v
}

fn c03_fp(l: &mut L, f: &Fp, p: &BigInt, x: &BigInt, e: &BigInt) {
    l.state();
    let ex = f.elt(x.clone());
    let want = if e.is_negative() { nt::pow(&nt::inv(x, p), &-e, p) } else { nt::pow(x, e, p) };
    let key = |t: &str| format!("x={x},e={e},{t}");
    if let Some(r) = l.run(|| key("int"), || &ex ^ e) {
        l.ok(is(f, &r, &want), || key("int"), || format!("got {r}, expected {want}"));
        l.outcome(&want);
    }
    if !e.is_negative() {
        let u = nt::ubig(e);
        if let Some(r) = l.run(|| key("uint"), || &ex ^ &u) {
            l.ok(is(f, &r, &want), || key("uint"), || format!("got {r}, expected {want}"));
        }
    }
}
fn c03_fp2(l: &mut L, f: &Fp2, x: &V2, e: &BigInt, want: &V2) {
    l.state();
    let ex = mk2(f, x);
    let key = |t: &str| format!("x={}+i*{},e={e},{t}", x.0, x.1);
    if let Some(r) = l.run(|| key("int"), || &ex ^ e) {
        l.ok(is2(f, &r, want), || key("int"), || format!("got {r}, expected {want:?}"));
        l.outcome(want);
    }
    if !e.is_negative() {
        let u = nt::ubig(e);
        if let Some(r) = l.run(|| key("uint"), || &ex ^ &u) {
            l.ok(is2(f, &r, want), || key("uint"), || format!("got {r}, expected {want:?}"));
        }
    }
}

pub fn c03(ctx: &Ctx) {
    let hi = ctx.by(43, 127);
    ctx.bound(format!("GF(p) for every odd prime p <= {hi}: every x and every exponent in [-3p, 3p], plus multiples of p-1 and word-boundary exponents of both signs"));
    ctx.par("fp-small", pjobs(nt::primes(3, hi)), |l, &p| {
        let f = fp(p);
        let bp = BigInt::from(p);
        let m = 3 * p as i64;
        let ex = exps(&bp, 1);
        for x in 0..p {
            if l.stopped() {
                return;
            }
            let x = BigInt::from(x);
            for e in -m..=m {
                c03_fp(l, &f, &bp, &x, &big(e));
            }
            for e in &ex {
                c03_fp(l, &f, &bp, &x, e);
                c03_fp(l, &f, &bp, &x, &-e);
            }
        }
    });
    ctx.bound("one prime per bit length and class (all table rows in thorough): 8 bases by boundary exponents of both signs");
    ctx.par("fp-large", jobs(with_named_(ctx, table(ctx, 12))), |l, q| {
        let f = field(&q.p);
        let al = nt::alphabet(&q.p, 0);
        let xs: Vec<_> = al.iter().step_by((al.len() / 8).max(1)).cloned().collect();
        for e in exps(&q.p, 0) {
            if l.stopped() {
                return;
            }
            for x in &xs {
                c03_fp(l, &f, &q.p, x, &e);
                c03_fp(l, &f, &q.p, x, &-&e);
            }
        }
    });
    let ps: Vec<u64> = nt::primes(3, ctx.by(23, 47)).into_iter().filter(|p| p % 4 == 3).collect();
    ctx.bound(format!("GF(p)[i] for every p = 3 mod 4 up to {}: every x and every exponent in [-(p^2+3), p^2+3], plus word-boundary exponents of both signs", ps.last().unwrap()));
    let mut js = vec![];
    for p in ps {
        for a in 0..p {
            js.push((format!("p={p},re={a}"), (p, a)));
        }
    }
    ctx.par("fp2-small", js, |l, &(p, a)| {
        let f = fp2(p);
        let bp = BigInt::from(p);
        let m = (p * p + 3) as i64;
        let ex = exps(&bp, 1);
        for b in 0..p {
            if l.stopped() {
                return;
            }
            let x: V2 = (BigInt::from(a), BigInt::from(b));
            let ix = inv2(&x, &bp);
            let (mut up, mut down) = ((BigInt::one(), BigInt::zero()), (BigInt::one(), BigInt::zero()));
            for e in 0..=m {
                c03_fp2(l, &f, &x, &big(e), &up);
                c03_fp2(l, &f, &x, &big(-e), &down);
                up = mul2(&up, &x, &bp);
                down = mul2(&down, &ix, &bp);
            }
            for e in &ex {
                c03_fp2(l, &f, &x, e, &pow2(&x, e, &bp));
                c03_fp2(l, &f, &x, &-e, &pow2(&ix, e, &bp));
            }
        }
    });
    let mut big2: Vec<Prime> = table(ctx, 40).into_iter().filter(|q| q.class % 4 == 3).collect();
    big2.extend(with_named_(ctx, vec![]).into_iter().filter(|q| q.class % 4 == 3));
    if !ctx.quick() {
        big2 = big2.into_iter().enumerate().filter(|(i, _)| i % 4 == 0).map(|x| x.1).collect();
    }
    ctx.par("fp2-large", jobs(big2), |l, q| {
        let f = Fp2::new(nt::ubig(&q.p));
        let al = nt::alphabet(&q.p, 0);
        let n = al.len();
        let mut xs: Vec<V2> = vec![(big(0), big(0)), (big(1), big(0)), (big(0), big(1)), (big(0), al[1].clone())];
        xs.push((al[n / 2].clone(), al[n - 1].clone()));
        xs.push((al[n / 3].clone(), al[n / 4].clone()));
        for e in exps(&q.p, 0) {
            if l.stopped() {
                return;
            }
            for x in &xs {
                c03_fp2(l, &f, x, &e, &pow2(x, &e, &q.p));
                c03_fp2(l, &f, x, &-&e, &pow2(&inv2(x, &q.p), &e, &q.p));
            }
        }
    });
    let hi = ctx.by(61, 251);
    ctx.bound(format!("the shorthands x^n and n/x for machine integers n: every x of GF(p), p <= {hi}, of GF(p)[i], p <= 19, every scalar, and boundary values of the named moduli: the square, the inverse, or a refusal for every other n of a list of 40"));
    ctx.par("shorthands", pjobs(nt::primes(3, hi)), |l, &p| {
        let f = fp(p);
        let bp = BigInt::from(p);
        for x in 0..p {
            shorthands(l, &f, &BigInt::from(x), &bp);
            sh_scalar::<W>(l, &BigInt::from(x), &bp);
            sh_scalar::<E>(l, &BigInt::from(x), &bp);
            sh_scalar::<M>(l, &BigInt::from(x), &bp);
            if p % 4 == 3 && p <= 19 {
                for y in 0..p {
                    shorthands2(l, &fp2(p), &(BigInt::from(x), BigInt::from(y)), &bp);
                }
            }
        }
    });
    ctx.par("shorthands-large", jobs(with_named_(ctx, vec![])), |l, q| {
        let f = field(&q.p);
        for x in nt::alphabet(&q.p, 0) {
            shorthands(l, &f, &x, &q.p);
            sh_scalar::<W>(l, &x, &q.p);
            sh_scalar::<E>(l, &x, &q.p);
            sh_scalar::<M>(l, &x, &q.p);
            if q.class % 4 == 3 {
                shorthands2(l, &Fp2::new(nt::ubig(&q.p)), &(x.clone(), &q.p - 1), &q.p);
            }
        }
    });
}

/// Machine integers around the ones that are admitted, around their bounds, and alike modulo 2^8 and 2^16.
fn ints() -> Vec<u32> {
    let mut v: Vec<u32> = (0..10).collect();
    v.extend([100, 254, 255, 256, 257, 258, 0xfffe, 0xffff, 0x10000, 0x10001, 0x10002, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x8000_0002]);
    v.extend((0..10).map(|i| u32::MAX - i));
    v
}
macro_rules! sh {
    ($l:expr, $ex:expr, $name:expr, $sq:expr, $inv:expr) => {{
        let (l, ex): (&mut L, _) = ($l, &$ex);
        l.state();
        for n in ints() {
            let s = n as i32;
            let (k1, k2, k3) = (|| format!("{}^{n}u32", $name), || format!("{}^{s}i32", $name), || format!("{n}/{}", $name));
            if n == 2 {
                if let Some((a, b)) = l.run(k1, || (ex ^ n, ex.clone() ^ n)) {
                    l.ok($sq(&a) && $sq(&b), k1, || format!("{a} {b}"));
                }
            } else {
                l.refused(k1, || ex ^ n);
                l.refused(k1, || ex.clone() ^ n);
            }
            if s == -1 {
                if let Some((a, b)) = l.run(k2, || (ex ^ s, ex.clone() ^ s)) {
                    l.ok($inv(&a) && $inv(&b), k2, || format!("{a} {b}"));
                }
            } else {
                l.refused(k2, || ex ^ s);
                l.refused(k2, || ex.clone() ^ s);
            }
            if n == 1 {
                if let Some(a) = l.run(k3, || n / ex) {
                    l.ok($inv(&a), k3, || format!("{a}"));
                }
            } else {
                l.refused(k3, || n / ex);
            }
        }
    }};
}
fn shorthands(l: &mut L, f: &Fp, x: &BigInt, p: &BigInt) {
    let (sq, iv) = (nt::red(&(x * x), p), nt::inv(x, p));
    sh!(l, f.elt(x.clone()), x, |a: &Elt| is(f, a, &sq), |a: &Elt| is(f, a, &iv))
}
fn shorthands2(l: &mut L, f: &Fp2, x: &V2, p: &BigInt) {
    let (sq, iv) = (mul2(x, x, p), inv2(x, p));
    sh!(l, mk2(f, x), format!("({},{})", x.0, x.1), |a: &Fp2Elt| is2(f, a, &sq), |a: &Fp2Elt| is2(f, a, &iv))
}
fn sh_scalar<K: Kind>(l: &mut L, x: &BigInt, r: &BigInt) {
    let s = K::s_new(x.clone(), &nt::ubig(r));
    let iv = nt::inv(x, r).to_string();
    l.state();
    for n in ints() {
        let k = || format!("{}:{n}/{x}", K::NAME);
        if n == 1 {
            if let Some(a) = l.run(k, || K::s_inv_of(n, &s).to_string()) {
                l.ok(a == iv, k, || a.clone());
            }
        } else {
            l.refused(k, || K::s_inv_of(n, &s));
        }
    }
}

// ---------------------------------------------------------------------------------------------- C04

fn c04_one(l: &mut L, f: &Fp, p: &BigInt, x: &BigInt, want: bool) {
    l.state();
    let ex = f.elt(x.clone());
    let key = |t: &str| format!("x={x},{t}");
    if let Some(s) = l.run(|| key("is_square"), || ex.is_square()) {
        l.ok(s == want, || key("is_square"), || format!("answered {s}"));
        l.outcome(&(x, s));
    }
    if want && nt::low(p) % 8 != 1 {
        if let Some(y) = l.run(|| key("sqrt"), || ex.sqrt()) {
            let n = nt::dec(&y.to_string());
            let good = nt::red(&(&n * &n), p) == *x && &y * &y == ex;
            l.ok(good, || key("sqrt"), || format!("sqrt gave {y}"));
            l.outcome(&n);
        }
    } else if want {
        // roots are unimplemented for these primes: refused or right
        l.calls(1);
        match crate::engine::guarded(|| ex.sqrt()) {
            Ok(y) => {
                let n = nt::dec(&y.to_string());
                l.ok(nt::red(&(&n * &n), p) == *x, || key("sqrt"), || format!("sqrt gave {y}"));
            }
            Err(_) => l.outcome(&"refused"),
        }
    }
}

pub fn c04(ctx: &Ctx) {
    let hi = ctx.by(5000, 16384);
    ctx.bound(format!("every element of GF(p) for every odd prime p <= {hi} (for p = 1 mod 8, where roots are unimplemented by design, refused or right)"));
    ctx.par("small", pjobs(nt::primes(3, hi)), |l, &p| {
        let f = fp(p);
        let bp = BigInt::from(p);
        let sq = nt::squares(p);
        for x in 0..p {
            if l.stopped() {
                return;
            }
            c04_one(l, &f, &bp, &BigInt::from(x), sq[x as usize]);
        }
        l.sample(|| format!("{p} elements"));
    });
    ctx.bound("alphabet elements, their squares and twice their squares for the primes of the table (every 3rd row in quick, up to 12 elements), the moduli of the named curves 24 primes of special form and primes of 640 to 2203 bits, against the Jacobi symbol");
    ctx.par("large", jobs(with_named(table(ctx, 3))), |l, q| {
        let f = field(&q.p);
        let al = nt::alphabet(&q.p, 0);
        let keep = if l.ctx.quick() { 4 } else { 10 };
        let step = (al.len() / keep).max(1);
        for (i, a) in al.iter().enumerate() {
            if l.stopped() {
                return;
            }
            let s = nt::red(&(a * a), &q.p);
            if i % step == 0 || i < 4 {
                c04_one(l, &f, &q.p, a, nt::is_qr(a, &q.p));
                let d = nt::red(&(&s * 2), &q.p);
                c04_one(l, &f, &q.p, &d, nt::is_qr(&d, &q.p));
                c04_one(l, &f, &q.p, &s, true);
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------- C05

fn c05_pair(l: &mut L, f: &Fp2, p: &BigInt, x: &V2, y: &V2, iy: &V2, ex: &Fp2Elt, ey: &Fp2Elt) {
    l.state();
    let key = |op: &str| format!("x={}+i*{},y={}+i*{},op={op}", x.0, x.1, y.0, y.1);
    let r = |v: BigInt| nt::red(&v, p);
    let groups: [(&str, V2); 4] = [
        ("+", (r(&x.0 + &y.0), r(&x.1 + &y.1))),
        ("-", (r(&x.0 - &y.0), r(&x.1 - &y.1))),
        ("*", mul2(x, y, p)),
        ("/", mul2(x, iy, p)),
    ];
    for (op, want) in groups {
        let got = l.run(
            || key(op),
            || match op {
                "+" => forms!(*ex, +, *ey),
                "-" => forms!(*ex, -, *ey),
                "*" => forms!(*ex, *, *ey),
                _ => forms!(*ex, /, *ey),
            },
        );
        l.calls(3);
        if let Some(g) = got {
            let w = mk2(f, &want);
            let bytes = ser2(f, &want);
            for (i, r) in g.iter().enumerate() {
                l.ok(*r == w && w == *r && r.to_bytes_be() == bytes, || format!("{},form={i}", key(op)), || format!("got {r}, expected {want:?}"));
            }
            l.outcome(&(op, want));
        }
    }
    if let Some((e, n)) = l.run(|| key("=="), || (ex == ey, ex != ey)) {
        l.ok(e == (x == y) && n == (x != y), || key("=="), || format!("equality answered {e}"));
    }
}
fn c05_one(l: &mut L, f: &Fp2, p: &BigInt, x: &V2, ex: &Fp2Elt) {
    let r = |v: BigInt| nt::red(&v, p);
    let neg = (r(-&x.0), r(-&x.1));
    let sq = mul2(x, x, p);
    let ix = inv2(x, p);
    let key = |op: &str| format!("x={}+i*{},op={op}", x.0, x.1);
    type Op<'a> = Box<dyn Fn() -> Fp2Elt + 'a>;
    let ops: Vec<(&str, V2, Op)> = vec![
        ("neg-ref", neg.clone(), Box::new(|| -ex)),
        ("neg-val", neg, Box::new(|| -ex.clone())),
        ("sqr-ref", sq.clone(), Box::new(|| ex ^ 2u32)),
        ("sqr-val", sq.clone(), Box::new(|| ex.clone() ^ 2u32)),
        ("inv-ref", ix.clone(), Box::new(|| ex ^ -1i32)),
        ("inv-val", ix.clone(), Box::new(|| ex.clone() ^ -1i32)),
        ("1/x", ix, Box::new(|| 1u32 / ex)),
        ("x+zero", x.clone(), Box::new(|| ex + f.zero())),
        ("x*one", x.clone(), Box::new(|| ex * f.one())),
    ];
    for (op, want, g) in ops {
        if let Some(v) = l.run(|| key(op), g) {
            l.ok(is2(f, &v, &want), || key(op), || format!("got {v}, expected {want:?}"));
        }
    }
    if let Some((z, o)) = l.run(|| key("zero/one"), || (ex.is_zero(), ex.is_one())) {
        let wz = x.0.is_zero() && x.1.is_zero();
        let wo = x.0.is_one() && x.1.is_zero();
        l.ok(z == wz && o == wo, || key("zero/one"), || format!("is_zero={z}, is_one={o}"));
    }
    l.ok(is2(f, ex, x), || key("unchanged"), || format!("operand became {ex}"));
}

pub fn c05(ctx: &Ctx) {
    let ps: Vec<u64> = nt::primes(3, ctx.by(23, 31)).into_iter().filter(|p| p % 4 == 3).collect();
    ctx.bound(format!("every pair of elements of GF(p)[i] for every p = 3 mod 4 up to {}", ps.last().unwrap()));
    let mut js = vec![];
    for p in ps {
        for a in 0..p {
            js.push((format!("p={p},re={a}"), (p, a)));
        }
    }
    ctx.par("small", js, |l, &(p, a)| {
        let f = fp2(p);
        let bp = BigInt::from(p);
        let all: Vec<V2> = (0..p * p).map(|i| (BigInt::from(i / p), BigInt::from(i % p))).collect();
        let es: Vec<_> = all.iter().map(|x| mk2(&f, x)).collect();
        let is: Vec<_> = all.iter().map(|x| inv2(x, &bp)).collect();
        for i in (a * p) as usize..((a + 1) * p) as usize {
            if l.stopped() {
                return;
            }
            c05_one(l, &f, &bp, &all[i], &es[i]);
            for j in 0..all.len() {
                c05_pair(l, &f, &bp, &all[i], &all[j], &is[j], &es[i], &es[j]);
            }
        }
        l.sample(|| format!("{} pairs", p * p * p));
    });
    ctx.bound("every pair of a 20-element alphabet with special coordinates, for every 20th (thorough: every) table prime that is 3 mod 4 and the named ones, 24 primes of special form and primes of 640 to 2203 bits");
    let mut qs: Vec<Prime> = table(ctx, 20).into_iter().filter(|q| q.class % 4 == 3).collect();
    qs.extend(with_named_(ctx, vec![]).into_iter().filter(|q| q.class % 4 == 3));
    ctx.par("large", jobs(qs), |l, q| {
        let f = Fp2::new(nt::ubig(&q.p));
        let al = nt::alphabet(&q.p, 0);
        let n = al.len();
        let c: Vec<BigInt> = vec![big(0), big(1), al[1].clone(), al[n / 2].clone(), al[n - 1].clone()];
        let mut xs: Vec<V2> = vec![];
        for a in &c {
            for b in &c {
                if (xs.len() < 20 || !a.is_zero()) && !xs.contains(&(a.clone(), b.clone())) {
                    xs.push((a.clone(), b.clone()));
                }
            }
        }
        let es: Vec<_> = xs.iter().map(|x| mk2(&f, x)).collect();
        let is: Vec<_> = xs.iter().map(|x| inv2(x, &q.p)).collect();
        for i in 0..xs.len() {
            if l.stopped() {
                return;
            }
            c05_one(l, &f, &q.p, &xs[i], &es[i]);
            for j in 0..xs.len() {
                c05_pair(l, &f, &q.p, &xs[i], &xs[j], &is[j], &es[i], &es[j]);
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------- C06

fn c06_one(l: &mut L, f: &Fp2, p: &BigInt, x: &V2, want: bool) {
    l.state();
    let ex = mk2(f, x);
    let key = |t: &str| format!("x={}+i*{},{t}", x.0, x.1);
    if let Some(s) = l.run(|| key("is_square"), || ex.is_square()) {
        l.ok(s == want, || key("is_square"), || format!("answered {s}"));
        l.outcome(&(x, s));
    }
    if want {
        if let Some(y) = l.run(|| key("sqrt"), || ex.sqrt()) {
            let b = y.to_bytes_be();
            let n = b.len() / 2;
            let v = (nt::from_be(&b[..n]), nt::from_be(&b[n..]));
            l.ok(mul2(&v, &v, p) == *x && &y * &y == ex, || key("sqrt"), || format!("sqrt gave {y}"));
            l.outcome(&v);
        }
    }
}

pub fn c06(ctx: &Ctx) {
    let ps: Vec<u64> = nt::primes(3, ctx.by(227, 383)).into_iter().filter(|p| p % 4 == 3).collect();
    ctx.bound(format!("every element of GF(p)[i] for every p = 3 mod 4 up to {}", ps.last().unwrap()));
    ctx.par("small", pjobs(ps.into_iter().rev().collect()), |l, &p| {
        let f = fp2(p);
        let bp = BigInt::from(p);
        let n = (p * p) as usize;
        let mut sq = vec![false; n];
        for a in 0..p {
            for b in 0..p {
                let re = (a * a + p * p - b * b) % p;
                let im = 2 * a * b % p;
                sq[(re * p + im) as usize] = true;
            }
        }
        for (i, want) in sq.iter().enumerate() {
            if l.stopped() {
                return;
            }
            c06_one(l, &f, &bp, &(BigInt::from(i as u64 / p), BigInt::from(i as u64 % p)), *want);
        }
        l.sample(|| format!("{n} elements"));
    });
    ctx.bound("special coordinates and their squares for every 24th (thorough: every 4th) table prime that is 3 mod 4 and the named ones, 24 primes of special form and primes of 640 to 2203 bits, against the norm's Jacobi symbol");
    let mut qs: Vec<Prime> = table(ctx, 24).into_iter().filter(|q| q.class % 4 == 3).collect();
    if !ctx.quick() {
        qs = qs.into_iter().enumerate().filter(|(i, _)| i % 4 == 0).map(|x| x.1).collect();
    }
    qs.extend(with_named_(ctx, vec![]).into_iter().filter(|q| q.class % 4 == 3));
    ctx.par("large", jobs(qs), |l, q| {
        let f = Fp2::new(nt::ubig(&q.p));
        let al = nt::alphabet(&q.p, 0);
        let n = al.len();
        let c: Vec<BigInt> = vec![big(0), big(1), big(2), al[1].clone(), al[n / 2].clone(), al[n - 1].clone()];
        for a in &c {
            for b in &c {
                if l.stopped() {
                    return;
                }
                let x = (a.clone(), b.clone());
                let norm = nt::red(&(a * a + b * b), &q.p);
                c06_one(l, &f, &q.p, &x, nt::is_qr(&norm, &q.p));
                if nt::low(a) % 2 == 0 {
                    c06_one(l, &f, &q.p, &mul2(&x, &x, &q.p), true);
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------- C07

fn c07_fp(l: &mut L, f: &Fp, x: &BigInt) {
    l.state();
    let e = f.elt(x.clone());
    let want = if x.bit(0) { -1 } else { 1 };
    if let Some(s) = l.run(|| format!("sgn0({x})"), || e.sgn0()) {
        l.ok(s == want, || format!("sgn0({x})"), || format!("answered {s}, expected {want}"));
        l.outcome(&(x, s));
    }
    if let Some(s) = l.run(|| format!("sgn0(-{x})"), || (-&e).sgn0()) {
        let w = if x.is_zero() { 1 } else { -want };
        l.ok(s == w, || format!("sgn0(-{x})"), || format!("answered {s}, expected {w}"));
    }
}
fn c07_fp2(l: &mut L, f: &Fp2, x: &V2) {
    l.state();
    let e = mk2(f, x);
    let c = if x.0.is_zero() { &x.1 } else { &x.0 };
    let want = if c.bit(0) { -1 } else { 1 };
    let key = |t: &str| format!("{t}({}+i*{})", x.0, x.1);
    if let Some(s) = l.run(|| key("sgn0"), || e.sgn0()) {
        l.ok(s == want, || key("sgn0"), || format!("answered {s}, expected {want}"));
        l.outcome(&(x, s));
    }
    if let Some(s) = l.run(|| key("sgn0-neg"), || (-&e).sgn0()) {
        let w = if c.is_zero() { 1 } else { -want };
        l.ok(s == w, || key("sgn0-neg"), || format!("answered {s}, expected {w}"));
    }
}
fn c07_cmov<T: CMov + PartialEq + std::fmt::Display>(l: &mut L, xs: &[T]) {
    for x in xs {
        for y in xs {
            for b in [false, true] {
                l.state();
                let k = || format!("cmov({x},{y},{b})");
                if let Some(r) = l.run(k, || T::cmov(x, y, b)) {
                    let (w, o) = if b { (y, x) } else { (x, y) };
                    l.ok(r == *w && (w == o || r != *o), k, || format!("gave {r}"));
                }
            }
        }
    }
}

pub fn c07(ctx: &Ctx) {
    let hi = ctx.by(6000, 20000);
    ctx.bound(format!("every element and its negative in GF(p) for odd p <= {hi}; every pair and condition of the selection for p <= 31"));
    ctx.par("fp", pjobs(nt::primes(3, hi)), |l, &p| {
        let f = fp(p);
        for x in 0..p {
            c07_fp(l, &f, &BigInt::from(x));
        }
        if p <= 31 {
            let es: Vec<Elt> = (0..p).map(|x| fe(&f, x)).collect();
            c07_cmov(l, &es);
        }
    });
    let h2 = ctx.by(251, 383);
    ctx.bound(format!("every element of GF(p)[i] for p = 3 mod 4 up to {h2}"));
    ctx.par("fp2", pjobs(nt::primes(3, h2).into_iter().filter(|p| p % 4 == 3).collect()), |l, &p| {
        let f = fp2(p);
        for i in 0..p * p {
            c07_fp2(l, &f, &(BigInt::from(i / p), BigInt::from(i % p)));
        }
        if p <= 7 {
            let es: Vec<Fp2Elt> = (0..p * p).map(|i| mk2(&f, &(BigInt::from(i / p), BigInt::from(i % p)))).collect();
            c07_cmov(l, &es);
        }
    });
    ctx.bound("the alphabet (45 or more elements) for every 5th (thorough: every) table prime and the named moduli; pairs of special coordinates in the quadratic field");
    ctx.par("large", jobs(with_named(table(ctx, 5))), |l, q| {
        let f = field(&q.p);
        let al = nt::alphabet(&q.p, 1);
        for x in &al {
            c07_fp(l, &f, x);
        }
        let es: Vec<Elt> = al.iter().step_by(8).map(|x| f.elt(x.clone())).collect();
        c07_cmov(l, &es);
        if q.class % 4 == 3 {
            let f2 = Fp2::new(nt::ubig(&q.p));
            for a in al.iter().step_by(5).chain([&big(0)]) {
                for b in al.iter().step_by(4).chain([&big(0)]) {
                    c07_fp2(l, &f2, &(a.clone(), b.clone()));
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------- C08

fn c08_elt(l: &mut L, f: &Fp, p: &BigInt, x: &BigInt) {
    l.state();
    let len = nt::bytelen(p);
    let e = f.elt(x.clone());
    let k = |t: &str| format!("fp:{t}:{x}");
    let be = nt::be_bytes(x, len);
    let le = nt::le_bytes(x, len);
    if let Some((a, b)) = l.run(|| k("ser"), || (e.to_bytes_be(), e.to_bytes_le())) {
        l.ok(a == be, || k("be"), || format!("got {a:02x?}, expected {be:02x?}"));
        l.ok(b == le, || k("le"), || format!("got {b:02x?}, expected {le:02x?}"));
        l.outcome(&a);
    }
    l.calls(2);
    if let Some((a, b)) = l.run(|| k("deser"), || (f.from_bytes_be(&be), f.from_bytes_le(&le))) {
        l.ok(a.is_ok_and(|v| is(f, &v, x)), || k("from_be"), || "not the same element".into());
        l.ok(b.is_ok_and(|v| is(f, &v, x)), || k("from_le"), || "not the same element".into());
    }
}
fn c08_bytes(l: &mut L, f: &Fp, p: &BigInt, b: &[u8]) {
    l.state();
    let k = |t: &str| format!("fp:{t}:{b:02x?}");
    if let Some(r) = l.run(|| k("from_be"), || f.from_bytes_be(b)) {
        let w = nt::red(&nt::from_be(b), p);
        l.ok(r.is_ok_and(|v| is(f, &v, &w)), || k("from_be"), || format!("expected {w}"));
    }
    if let Some(r) = l.run(|| k("from_le"), || f.from_bytes_le(b)) {
        let w = nt::red(&nt::from_le(b), p);
        l.ok(r.is_ok_and(|v| is(f, &v, &w)), || k("from_le"), || format!("expected {w}"));
    }
}
fn c08_elt2(l: &mut L, f: &Fp2, x: &V2) {
    l.state();
    let k = |t: &str| format!("fp2:{t}:{}+i*{}", x.0, x.1);
    // built from a numeral, so that deserialization is checked against C02
    let e: Fp2Elt = match l.run(|| k("build"), || str_elt(f, &format!("{},{}", x.0, x.1))) {
        Some(e) => e,
        None => return,
    };
    let n = nt::bytelen(&f.get_modulus());
    let be = ser2(f, x);
    let mut le = nt::le_bytes(&x.0, n);
    le.extend(nt::le_bytes(&x.1, n));
    if let Some((a, b)) = l.run(|| k("ser"), || (e.to_bytes_be(), e.to_bytes_le())) {
        l.ok(a == be, || k("be"), || format!("got {a:02x?}, expected {be:02x?}"));
        l.ok(b == le, || k("le"), || format!("got {b:02x?}, expected {le:02x?}"));
    }
    if let Some((a, b)) = l.run(|| k("deser"), || (f.from_bytes_be(&be), f.from_bytes_le(&le))) {
        l.ok(a.is_ok_and(|v| v == e && e == v), || k("from_be"), || "not the same element".into());
        l.ok(b.is_ok_and(|v| v == e && e == v), || k("from_le"), || "not the same element".into());
    }
}
fn c08_bytes2(l: &mut L, f: &Fp2, p: &BigInt, b: &[u8]) {
    l.state();
    let n = nt::bytelen(p);
    let k = |t: &str| format!("fp2:{t}:{b:02x?}");
    for be in [true, false] {
        let t = if be { "from_be" } else { "from_le" };
        let r = l.run(|| k(t), || if be { f.from_bytes_be(b) } else { f.from_bytes_le(b) });
        let Some(r) = r else { continue };
        if b.len() != 2 * n {
            l.ok(r.is_err(), || k(t), || "a wrong length was accepted".into());
        } else {
            let g = |s: &[u8]| nt::red(&if be { nt::from_be(s) } else { nt::from_le(s) }, p);
            let w = (g(&b[..n]), g(&b[n..]));
            l.ok(r.is_ok_and(|v| v.to_bytes_be() == ser2(f, &w)), || k(t), || format!("expected {w:?}"));
        }
    }
}
fn c08_scalar<K: Kind>(l: &mut L, r: &BigInt, x: &BigInt) {
    l.state();
    let len = nt::bytelen(r);
    let k = |t: &str| format!("{}-scalar:{t}:{x}", K::NAME);
    let got = l.run(|| k("ser"), || {
        let s = K::s_new(x.clone(), &nt::ubig(r));
        (s.to_bytes_be(), s.to_bytes_le())
    });
    if let Some((a, b)) = got {
        let (be, le) = (nt::be_bytes(x, len), nt::le_bytes(x, len));
        l.ok(a == be, || k("be"), || format!("got {a:02x?}, expected {be:02x?}"));
        l.ok(b == le, || k("le"), || format!("got {b:02x?}, expected {le:02x?}"));
    }
}

pub fn c08(ctx: &Ctx) {
    let mut ps = nt::primes(3, ctx.by(1200, 3000));
    ps.extend([32749, 32771, 65519, 65521, 65537]);
    ctx.bound("every element of GF(p) for the odd primes up to 600 (thorough 2000) and five primes around two-byte boundaries, both byte orders, and scalars of the three models for each prime as a group order");
    ctx.par("elements", pjobs(ps), |l, &p| {
        let f = fp(p);
        let bp = BigInt::from(p);
        let want = nt::bytelen(&bp);
        if let Some(s) = l.run(|| "size".into(), || f.size_bytes()) {
            l.ok(s == want, || "size".into(), || format!("size_bytes is {s}, expected {want}"));
        }
        for x in 0..p {
            if l.stopped() {
                return;
            }
            let x = BigInt::from(x);
            c08_elt(l, &f, &bp, &x);
            if p < 600 {
                c08_scalar::<W>(l, &bp, &x);
                c08_scalar::<E>(l, &bp, &x);
                c08_scalar::<M>(l, &bp, &x);
            }
        }
        if p <= 103 && p % 4 == 3 {
            let f2 = fp2(p);
            for i in 0..p * p {
                c08_elt2(l, &f2, &(BigInt::from(i / p), BigInt::from(i % p)));
            }
        }
    });
    ctx.bound("every byte string of length 0, 1 and 2, and length 3 and 4 strings over {00,01,7f,80,fb,ff}, for 8 prime fields; every length 0..12 for quadratic fields, with all strings of the right length for one-byte fields");
    ctx.par("bytes", pjobs(vec![3, 7, 127, 131, 251, 257, 65519, 65537]), |l, &p| {
        let f = fp(p);
        let bp = BigInt::from(p);
        c08_bytes(l, &f, &bp, &[]);
        for a in 0..=255u8 {
            c08_bytes(l, &f, &bp, &[a]);
            for b in 0..=255u8 {
                c08_bytes(l, &f, &bp, &[a, b]);
            }
        }
        let al = [0u8, 1, 0x7f, 0x80, 0xfb, 0xff];
        for i in 0..6usize.pow(4) {
            let s: Vec<u8> = (0..4).map(|j| al[i / 6usize.pow(j) % 6]).collect();
            c08_bytes(l, &f, &bp, &s);
            c08_bytes(l, &f, &bp, &s[1..]);
        }
    });
    ctx.par("bytes2", pjobs(vec![3, 7, 131, 251, 263, 65519, 65543]), |l, &p| {
        let f = fp2(p);
        let bp = BigInt::from(p);
        let n = nt::bytelen(&bp);
        if let Some(s) = l.run(|| "size".into(), || f.size_bytes()) {
            l.ok(s == 2 * n, || "size".into(), || format!("size_bytes is {s}"));
        }
        for len in 0..=12usize {
            for fill in [0u8, 1, 0x80, 0xff] {
                c08_bytes2(l, &f, &bp, &vec![fill; len]);
                let inc: Vec<u8> = (0..len as u8).map(|i| i.wrapping_mul(37) ^ fill).collect();
                c08_bytes2(l, &f, &bp, &inc);
            }
        }
        if n == 1 {
            for a in 0..=255u8 {
                for b in 0..=255u8 {
                    c08_bytes2(l, &f, &bp, &[a, b]);
                }
            }
        } else {
            let al = [0u8, 1, 2, 0x7f, 0x80, 0xfe, 0xff];
            let m = 2 * n as u32;
            for i in 0..7usize.pow(m) {
                let s: Vec<u8> = (0..m).map(|j| al[i / 7usize.pow(j) % 7]).collect();
                c08_bytes2(l, &f, &bp, &s);
            }
        }
    });
    ctx.bound("the alphabet for every 5th (thorough: every) table prime and the named moduli: round trips, values at and above the modulus, leading and trailing zero bytes, one byte more or less; scalars likewise");
    ctx.par("large", jobs(with_named(table(ctx, 5))), |l, q| {
        let f = field(&q.p);
        let n = nt::bytelen(&q.p);
        if let Some(s) = l.run(|| "size".into(), || f.size_bytes()) {
            l.ok(s == n, || "size".into(), || format!("size_bytes is {s}"));
        }
        let al = nt::alphabet(&q.p, 1);
        for x in &al {
            if l.stopped() {
                return;
            }
            c08_elt(l, &f, &q.p, x);
            c08_scalar::<W>(l, &q.p, x);
            c08_scalar::<E>(l, &q.p, x);
            c08_scalar::<M>(l, &q.p, x);
        }
        let mut strs = vec![vec![0xff; n], vec![0xff; n + 1], vec![0xff; 2 * n], vec![0x80; n], vec![0; n + 3]];
        for d in [0u32, 1] {
            strs.push(nt::be_bytes(&(&q.p + d), n + 1));
            strs.push(nt::le_bytes(&(&q.p + d), n + 1));
        }
        if n > 1 {
            strs.push(vec![0xff; n - 1]);
        }
        for s in &strs {
            c08_bytes(l, &f, &q.p, s);
        }
        if q.class % 4 == 3 {
            let f2 = Fp2::new(nt::ubig(&q.p));
            for a in al.iter().step_by(6).chain([&big(0)]) {
                for b in al.iter().step_by(5).chain([&big(0)]) {
                    c08_elt2(l, &f2, &(a.clone(), b.clone()));
                }
            }
            for d in [0usize, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n, 4 * n] {
                c08_bytes2(l, &f2, &q.p, &vec![0xa5; d]);
                c08_bytes2(l, &f2, &q.p, &vec![0; d]);
            }
        }
    });

}
