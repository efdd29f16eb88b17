//! Inputs that are much longer than anything the sizes of the structures ask for: integers and exponents of up to
//! 131073 bits, numerals and octet strings of up to 65538 digits or bytes more than usual. Lengths lie around powers of two.

use crate::api::*;
use crate::engine::{Ctx, L};
use crate::nt::{self, big};
use crate::p_curve::dec_ref;
use crate::p_field::{digits, field, inv2, is, is2, mk2, pow2, prefix, str_elt, with_named, V2};
use crate::refcurve::*;
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, Signed, Zero};
use redox_ecc::ellipticcurve::{Decode, EllipticCurve, Encode};
use redox_ecc::field::Field;
use redox_ecc::ops::{Deserialize, Serialize};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};

/// n bits without a pattern, the first and the last of them set.
fn mix(n: usize) -> BigInt {
    let mut s = n as u64;
    let bytes: Vec<u8> = (0..n.div_ceil(8))
        .map(|_| {
            s = s.wrapping_mul(0x5851f42d4c957f2d).wrapping_add(0x14057b7ef767814f);
            (s >> 56) as u8
        })
        .collect();
    let top: BigInt = BigInt::one() << (n - 1);
    let low: BigInt = BigInt::from_bytes_le(Sign::Plus, &bytes) % &top;
    (low | top) | BigInt::one()
}
const BITS: [usize; 24] =
    [900, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8192, 10000, 16383, 16384, 32768, 40000, 65535, 65536, 65537, 100000, 131072];
/// Long integers, with a short name each.
fn longs(upto: usize) -> Vec<(String, BigInt)> {
    let mut v = vec![];
    for e in BITS {
        if e <= upto {
            let t: BigInt = BigInt::one() << e;
            v.push((format!("2^{e}-1"), &t - 1));
            v.push((format!("2^{e}+1"), &t + 1));
            v.push((format!("2^{e}"), t));
            v.push((format!("mix{e}"), mix(e)));
        }
    }
    v
}
fn both(upto: usize) -> Vec<(String, BigInt)> {
    longs(upto).into_iter().flat_map(|(s, n)| [(format!("-({s})"), -&n), (s, n)]).collect()
}
fn numeral(n: &BigInt, r: u32) -> String {
    format!("{}{}{}", if n.is_negative() { "-" } else { "" }, prefix(r), digits(&n.abs(), r, false))
}
/// Small and large moduli.
fn moduli() -> Vec<(String, BigInt)> {
    let mut v: Vec<(String, BigInt)> = [3u64, 7, 103, 251, 65521].iter().map(|p| (format!("p={p}"), BigInt::from(*p))).collect();
    for q in with_named(vec![]) {
        if q.name.contains('(') {
            v.push((q.name.clone(), q.p.clone()));
        }
    }
    v
}
fn split(v: Vec<(String, BigInt)>, parts: usize) -> Vec<(String, (BigInt, usize))> {
    v.into_iter().flat_map(|(s, p)| (0..parts).map(move |i| (format!("{s}/{i}"), (p.clone(), i)))).collect()
}

/// A small curve, not the first one of its field.
fn small(model: Model, p: u64) -> Option<Toy> {
    let fit = |a: u64, b: u64| {
        let t = Toy::bare(model, p, a, b, 0)?;
        let s = match model {
            Model::W if t.n() > 2 && nt::is_prime64(t.n() as u64) => 0,
            Model::W => return None,
            Model::E => 0,
            Model::M => good_s(p, a, b).pop()?,
        };
        Toy::new(model, p, a, b, s)
    };
    (2..p).rev().find_map(|a| (2..p).find_map(|b| fit(a, b)))
}

pub fn c02(ctx: &Ctx) {
    ctx.bound("integers of up to 131072 bits around powers of two and without a pattern, of either sign, as big integers and as numerals in the four radices, also of exactly 1024, 4096, 16384 and 65536 digits and one more or less; over small fields and those of the named curves, and as coordinates in the quadratic fields");
    let upto = ctx.by(65537, 131072);
    let all: Vec<(String, BigInt, Vec<(u32, String)>)> = both(upto)
        .into_iter()
        .map(|(s, n)| {
            let t = [10u32, 16, 8, 2].into_iter().filter(|r| *r != 10 || n.bits() < ctx.by(10001, 40001)).map(|r| (r, numeral(&n, r))).collect();
            (s, n, t)
        })
        .collect();
    let all = &all;
    ctx.par("long", split(moduli(), 4), |l, (p, part)| {
        let f = field(p);
        let f2 = (nt::red(p, &big(4)) == big(3)).then(|| Fp2::new(nt::ubig(p)));
        for (s, n, t) in all.iter().skip(*part).step_by(4) {
            if l.stopped() {
                return;
            }
            l.state();
            let want = nt::red(n, p);
            let key = || format!("elt:{s}");
            if let Some(e) = l.run(key, || f.elt(n.clone())) {
                l.ok(is(&f, &e, &want), key, || format!("got {e}, expected {want}"));
                l.outcome(&want);
            }
            for (r, t) in t {
                let key = || format!("{s} in radix {r}");
                if let Some(e) = l.run(key, || -> Elt { str_elt(&f, t) }) {
                    l.ok(is(&f, &e, &want), key, || format!("got {e}, expected {want}"));
                }
                if let Some(f2) = &f2 {
                    let (u, w) = (format!("{t},0x5"), format!("-3,{t}"));
                    let (x, y) = ((want.clone(), nt::red(&big(5), p)), (nt::red(&big(-3), p), want.clone()));
                    for (u, x) in [(u, x), (w, y)] {
                        let key = || format!("{s} in radix {r}, as a coordinate");
                        if let Some(e) = l.run(key, || -> Fp2Elt { str_elt(f2, &u) }) {
                            l.ok(is2(f2, &e, &x), key, || format!("got {e}, expected {x:?}"));
                        }
                    }
                }
            }
        }
        // numerals of a given number of digits
        for (i, len) in [255usize, 256, 257, 511, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 65537].into_iter().enumerate() {
            if i % 4 != *part {
                continue;
            }
            for r in [10u32, 16, 8, 2] {
                if r == 10 && len > 10000 {
                    continue;
                }
                let mut s = len as u64;
                let t: String = (0..len)
                    .map(|_| {
                        s = s.wrapping_mul(0x5851f42d4c957f2d).wrapping_add(0x14057b7ef767814f);
                        std::char::from_digit((s >> 40) as u32 % r, r).unwrap()
                    })
                    .collect();
                let n = BigInt::parse_bytes(t.as_bytes(), r).unwrap();
                for sign in ["", "-"] {
                    l.state();
                    let want = nt::red(&if sign.is_empty() { n.clone() } else { -&n }, p);
                    let key = || format!("{sign}{len} digits in radix {r}");
                    let t = format!("{sign}{}{t}", prefix(r));
                    if let Some(e) = l.run(key, || -> Elt { str_elt(&f, &t) }) {
                        l.ok(is(&f, &e, &want), key, || format!("got {e}, expected {want}"));
                    }
                }
            }
        }
    });
}

pub fn c03(ctx: &Ctx) {
    ctx.bound("exponents of up to 65537 (quadratic fields over large primes: 4097) bits around powers of two and without a pattern, of either sign, over the same fields");
    ctx.par("long", split(moduli(), 8), |l, (p, part)| {
        let f = field(p);
        let q: BigInt = p - 1;
        let large = p.bits() > 64;
        let xs = [big(0), big(1), big(2), q.clone(), nt::red(&mix(p.bits() as usize + 3), p)];
        for (s, e) in longs(65537).into_iter().skip(*part).step_by(8) {
            if l.stopped() {
                return;
            }
            for x in &xs {
                l.state();
                let (up, down) = if x.is_zero() { (big(0), big(0)) } else { (nt::pow(x, &nt::red(&e, &q), p), nt::pow(&nt::inv(x, p), &nt::red(&e, &q), p)) };
                let ex = f.elt(x.clone());
                let key = |t: &str| format!("x={x},e={s},{t}");
                let u = nt::ubig(&e);
                let m: BigInt = -&e;
                if let Some((a, b, c)) = l.run(|| key("fp"), || (&ex ^ &e, &ex ^ &u, &ex ^ &m)) {
                    l.ok(is(&f, &a, &up) && is(&f, &b, &up), || key("up"), || format!("got {a} and {b}, expected {up}"));
                    l.ok(is(&f, &c, &down), || key("down"), || format!("got {c}, expected {down}"));
                    l.outcome(&up);
                }
            }
        }
        if nt::red(p, &big(4)) != big(3) {
            return;
        }
        let f = Fp2::new(nt::ubig(p));
        let order: BigInt = p * p - 1;
        let y = nt::red(&mix(p.bits() as usize + 5), p);
        let xs: [V2; 4] = [(big(0), big(0)), (big(0), big(1)), (y.clone(), big(1)), (big(2), y)];
        for (s, e) in longs(if large { 4097 } else { 65537 }).into_iter().skip(*part).step_by(8) {
            if l.stopped() {
                return;
            }
            for x in &xs {
                l.state();
                let zero = x.0.is_zero() && x.1.is_zero();
                let k = if zero { big(1) } else { nt::red(&e, &order) };
                let (up, down) = (pow2(x, &k, p), pow2(&inv2(x, p), &k, p));
                let ex = mk2(&f, x);
                let key = |t: &str| format!("x={},{},e={s},{t}", x.0, x.1);
                let u: BigUint = nt::ubig(&e);
                let m: BigInt = -&e;
                if let Some((a, b, c)) = l.run(|| key("fp2"), || (&ex ^ &e, &ex ^ &u, &ex ^ &m)) {
                    l.ok(is2(&f, &a, &up) && is2(&f, &b, &up), || key("up"), || format!("got {a} and {b}, expected {up:?}"));
                    l.ok(is2(&f, &c, &down), || key("down"), || format!("got {c}, expected {down:?}"));
                }
            }
        }
    });
}

const LENGTHS: [usize; 22] = [64, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1023, 1024, 1025, 1500, 4095, 4096, 4097, 65535, 65536, 65537];
fn strings(len: usize) -> Vec<(&'static str, Vec<u8>)> {
    let mut last = vec![0; len];
    last[len - 1] = 1;
    let mut first = vec![0; len];
    first[0] = 1;
    vec![("ff", vec![0xff; len]), ("last", last), ("first", first), ("mix", nt::be_bytes(&mix(8 * len), len))]
}
pub fn c08(ctx: &Ctx) {
    ctx.bound("octet strings of 64 to 65537 bytes, four patterns, over small fields and those of the named curves: reduced in prime fields, refused in quadratic fields, where also every length that is 256, 512 or 65536 more than the right one is tried");
    ctx.par("long", split(moduli(), 2), |l, (p, part)| {
        let f = field(p);
        for len in LENGTHS.into_iter().skip(*part).step_by(2) {
            for (s, b) in strings(len) {
                if l.stopped() {
                    return;
                }
                l.state();
                let key = || format!("fp:{len} bytes,{s}");
                if let Some((x, y)) = l.run(key, || (f.from_bytes_be(&b), f.from_bytes_le(&b))) {
                    let (u, v) = (nt::red(&BigInt::from_bytes_be(Sign::Plus, &b), p), nt::red(&BigInt::from_bytes_le(Sign::Plus, &b), p));
                    l.ok(x.is_ok_and(|x| is(&f, &x, &u)), key, || format!("big-endian: expected {u}"));
                    l.ok(y.is_ok_and(|y| is(&f, &y, &v)), key, || format!("little-endian: expected {v}"));
                    l.outcome(&u);
                }
            }
        }
        if nt::red(p, &big(4)) != big(3) {
            return;
        }
        let f = Fp2::new(nt::ubig(p));
        let n = 2 * nt::bytelen(p);
        for len in LENGTHS.into_iter().chain([n + 256, n + 512, n + 65536, 2 * n, 3 * n, 256 * n]).skip(*part).step_by(2) {
            if len == n {
                continue;
            }
            for (s, b) in strings(len) {
                l.state();
                let key = || format!("fp2:{len} bytes,{s}");
                if let Some((x, y)) = l.run(key, || (f.from_bytes_be(&b).is_err(), f.from_bytes_le(&b).is_err())) {
                    l.ok(x && y, key, || "a wrong length was accepted".into());
                }
            }
        }
    });
}

fn c13_order<K: Kind>(l: &mut L, r: &BigInt, part: usize) {
    let ur = nt::ubig(r);
    for (s, n) in both(65537).into_iter().skip(part).step_by(2) {
        if l.stopped() {
            return;
        }
        l.state();
        let w = nt::red(&n, r);
        let key = || format!("{}:new({s})", K::NAME);
        if let Some(k) = l.run(key, || K::s_new(n.clone(), &ur)) {
            let bits: Vec<bool> = (0..w.bits()).map(|i| w.bit(i)).collect();
            let got = l.run(key, || (k.to_string(), k.to_bytes_be(), K::rl(&k, bits.len() + 9)));
            if let Some((t, b, rl)) = got {
                l.ok(t == w.to_string() && b == nt::be_bytes(&w, nt::bytelen(r)) && rl == bits, key, || format!("got {t}, expected {w}"));
                l.outcome(&w);
            }
        }
    }
}
pub fn c13(ctx: &Ctx) {
    ctx.bound("scalars of integers of up to 65537 bits, of either sign, for small orders and those of the size of the named curves");
    ctx.par("long", split(moduli(), 2), |l, (r, part)| {
        c13_order::<W>(l, r, *part);
        c13_order::<E>(l, r, *part);
        c13_order::<M>(l, r, *part);
    });
}

fn c18_strings<K: Kind, A: Ar>(l: &mut L, rf: &Ref<A>, c: &K::C, pts: &[Pt<A::E>]) {
    for (i, q) in pts.iter().enumerate() {
        for compress in [true, false] {
            let e = rf.enc(q, compress);
            let n = e.len();
            let mut v: Vec<(String, Vec<u8>)> = vec![];
            for more in [n, 2 * n, 128, 255, 256, 257, 512, 1024, 4096, 65535, 65536, 65537, 131072] {
                for fill in [0u8, 0xff] {
                    let mut b = e.clone();
                    b.resize(n + more, fill);
                    v.push((format!("{more} bytes {fill:#x} after"), b));
                    let mut b = vec![fill; more];
                    b.extend(&e);
                    v.push((format!("{more} bytes {fill:#x} before"), b));
                }
                v.push((format!("repeated up to {}", n + more), e.iter().cycle().take(n + more).cloned().collect()));
            }
            for (s, b) in v {
                l.state();
                let key = || format!("point {i},{},{s}", if compress { "compressed" } else { "full" });
                let want = dec_ref(rf, &b);
                if let Some(r) = l.run(key, || c.decode(&b)) {
                    match (r, want) {
                        (Err(_), None) => {
                            l.ok(true, key, String::new);
                        }
                        (Ok(d), Some(w)) => {
                            let good = l.run(key, || d.encode(false) == rf.enc(&w, false));
                            l.ok(good == Some(true), key, || "decoded to another point".into());
                        }
                        (r, w) => {
                            l.ok(false, key, || format!("accepted: {}, expected {w:?}", r.is_ok()));
                        }
                    }
                }
            }
        }
    }
}
fn c18_model<K: Kind>(ctx: &Ctx) {
    ctx.par(&format!("{}-long-named", K::NAME), named_jobs::<K>(), |l, &i| {
        let n = named::<K>(i);
        let mut pts = n.alphabet(0);
        pts.truncate(4);
        c18_strings::<K, _>(l, &n.rf, &n.c, &pts);
    });
    let js: Vec<_> = [5u64, 7, 11, 13, 127, 131, 251, 263].iter().map(|p| (format!("p={p}"), *p)).collect();
    ctx.par(&format!("{}-long-toy", K::NAME), js, |l, &p| {
        let Some(t) = small(K::MODEL, p) else { return };
        let c = t.build::<K>();
        let pts: Vec<_> = t.pts.iter().step_by(t.pts.len().div_ceil(8)).cloned().collect();
        c18_strings::<K, _>(l, &t.rf, &c, &pts);
    });
}
pub fn c18(ctx: &Ctx) {
    ctx.bound("every model, small curves and the named ones: valid encodings with up to 131072 bytes before or after them, or repeated; the lengths are those of the encodings plus multiples of them and numbers around powers of two");
    c18_model::<W>(ctx);
    c18_model::<E>(ctx);
    c18_model::<M>(ctx);
}

fn c28_model<K: Kind>(ctx: &Ctx) {
    let js = split(vec![("13".into(), big(13)), ("11".into(), big(11))], 4);
    ctx.par(&format!("{}-long", K::NAME), js, |l, (p, part)| {
        let Some(t) = small(K::MODEL, nt::low(p)) else { return };
        let base = t.build::<K>();
        let txt = t.text();
        let gen = base.get_generator().encode(false);
        for (s, n) in longs(40000).into_iter().skip(*part).step_by(4) {
            if l.stopped() {
                return;
            }
            let odd: BigInt = &n | BigInt::one();
            let (r, h) = (BigInt::from(t.r), BigInt::from(t.h));
            for (what, r1, h1) in [("order", odd.clone(), h.clone()), ("cofactor", r.clone(), n.clone()), ("both", odd.clone(), odd.clone())] {
                l.state();
                let x = Text { r: r1.to_string(), h: h1.to_string(), ..txt.clone() };
                let key = |o: &str| format!("{what}={s}/{o}");
                let Some(c) = l.run(|| key("build"), || K::build(&x)) else { continue };
                let got = l.run(|| key("numbers"), || {
                    let k = c.new_scalar(big(-1));
                    (BigInt::from(c.get_order()), c.get_cofactor(), BigInt::from_bytes_be(Sign::Plus, &k.to_bytes_be()), k.to_bytes_be().len(), c == base, c == K::build(&x), c.get_generator().encode(false) == gen)
                });
                if let Some(g) = got {
                    let len = r1.bits().div_ceil(8) as usize;
                    let same = r1 == r && h1 == h;
                    l.ok(g.0 == r1 && g.1 == h1, || key("numbers"), || "the order or the cofactor is not the one given".into());
                    l.ok(g.2 == &r1 - 1 && g.3 == len, || key("scalar"), || "the scalar of -1 is not r-1".into());
                    l.ok(g.4 == same && g.5 && g.6, || key("equal"), || format!("equal to the curve of order {r}: {}, to itself: {}, generator: {}", g.4, g.5, g.6));
                }
            }
            // unreduced coefficients and coordinates
            let far = |v: &str, m: &BigInt, radix: u32| numeral(&(nt::dec(v) + m * p), radix);
            let neg: BigInt = -&n;
            for (i, (m, radix)) in [(&n, 16u32), (&neg, 2), (&n, 8), (&neg, 16)].into_iter().enumerate() {
                l.state();
                let mut x = txt.clone();
                match i {
                    0 => x.a = far(&x.a, m, radix),
                    1 => x.b = far(&x.b, m, radix),
                    2 => x.gx = far(&x.gx, m, radix),
                    _ => x.gy = far(&x.gy, m, radix),
                }
                if K::MODEL == Model::M && i == 0 {
                    x.s = far(&x.s, m, radix);
                }
                let key = || format!("parameter {i} plus {s} times p");
                if let Some((a, b)) = l.run(key, || {
                    let c = K::build(&x);
                    (c == base, c.get_generator().encode(false) == gen)
                }) {
                    l.ok(a && b, key, || format!("equal to the curve: {a}, same generator: {b}"));
                }
            }
        }
    });
}
pub fn c28(ctx: &Ctx) {
    ctx.bound("orders and cofactors of up to 40000 bits, and coefficients and coordinates with up to that many bits added as multiples of p, on two small curves of every model");
    c28_model::<W>(ctx);
    c28_model::<E>(ctx);
    c28_model::<M>(ctx);
}

pub fn c30(ctx: &Ctx) {
    ctx.bound("numerals of 300 to 66000 characters with one character that is no digit of the radix, at positions around powers of two, at both ends and in the middle; over small fields and those of the named curves");
    let ms: Vec<_> = moduli();
    ctx.par("very-long", split(ms, 2), |l, (p, part)| {
        let f = field(p);
        let f2 = (nt::red(p, &big(4)) == big(3)).then(|| Fp2::new(nt::ubig(p)));
        for len in [300usize, 1030, 2100, 4100, 8200, 66000].into_iter().skip(*part).step_by(2) {
            for r in [10u32, 16, 8, 2] {
                if r == 10 && len > 10000 {
                    continue;
                }
                let good: String = std::iter::repeat_n('1', len).collect();
                let at = [0usize, 1, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 65535, 65536];
                for i in at.into_iter().chain([len / 2, len - 2, len - 1]).filter(|i| *i < len) {
                    for c in ["/", ":", "g", "G", "2", "8", "a", " ", "\0", ".", ",", "\u{e9}"] {
                        if l.stopped() {
                            return;
                        }
                        if c.len() == 1 && c.chars().next().unwrap().to_digit(r).is_some() {
                            continue;
                        }
                        l.state();
                        let t = format!("{}{}{c}{}", prefix(r), &good[..i], &good[i + 1..]);
                        let key = || format!("{len} characters, radix {r}, {c:?} at {i}");
                        l.refused(key, || -> Elt { str_elt(&f, &t) });
                        if let (Some(f2), false) = (&f2, c == ",") {
                            for u in [format!("{t},1"), format!("1,{t}")] {
                                l.refused(key, || -> Fp2Elt { str_elt(f2, &u) });
                            }
                        }
                    }
                }
            }
        }
    });
}
