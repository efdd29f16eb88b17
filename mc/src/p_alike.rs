//! C26, alike operands: things that agree in a part of what they are (the low or the high words, the sum of the words,
//! two of three coordinates, everything but the sign, everything but the curve), with one call as the question.
//! An answer that is kept and found again by a part of the operand only shows between such things.

use crate::api::*;
use crate::hist::{hexs, t};
use crate::nt::{self, big};
use crate::p_crowd::{list, Make};
use crate::refcurve::*;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EllipticCurve, Encode, Isogeny, MapToCurve, RationalMap};
use redox_ecc::instances;
use redox_ecc::ops::Serialize;
use redox_ecc::primefield::Fp;
use redox_ecc::quadraticfield::Fp2;
use redox_ecc::{montgomery, weierstrass};
use std::collections::HashMap;
use std::rc::Rc;

fn ans(f: impl FnMut() -> String) -> String {
    let mut o = String::new();
    t(&mut o, f);
    o
}
fn two(k: u32) -> BigInt {
    BigInt::one() << k
}
fn flip(x: &BigInt, k: u32) -> BigInt {
    if x.bit(k as u64) {
        x - two(k)
    } else {
        x + two(k)
    }
}
/// A number without a pattern, of the size of `m`.
fn base(m: &BigInt) -> BigInt {
    let mut v = BigInt::zero();
    for k in 0..=m.bits() / 61 {
        v = (v << 61u32) + big((k as i64 + 3).wrapping_mul(0x2545_F491_4F6C_DD1D_i64.rotate_left(k as u32 * 7)) & ((1 << 61) - 1));
    }
    v % m
}
/// Numbers below `m` that are alike: any two of the first ones agree in many ways.
fn alikes(m: &BigInt) -> Vec<BigInt> {
    let b = base(m);
    let bits = m.bits() as u32;
    let words = |v: &[u64]| v.iter().rev().fold(BigInt::zero(), |a, w| (a << 64u32) + BigInt::from(*w));
    let w: Vec<u64> = b.iter_u64_digits_();
    let mut swapped = w.clone();
    let k = swapped.len() - 1;
    swapped.swap(0, k);
    let mut v = vec![
        b.clone(),
        flip(&b, bits - 3),
        flip(&b, 0),
        flip(&b, 64.min(bits - 2)),
        flip(&b, 32.min(bits - 4)),
        m - &b,
        words(&swapped),
        &b + two(0) - two(64.min(bits - 2)),
        flip(&flip(&b, 5), 5 + 64.min(bits - 8)),
        flip(&b, 8),
        big(4),
        big(4) + two(64.min(bits - 2)),
        big(4) + two(32.min(bits - 4)),
        big(4) + two(bits - 3),
        m - big(4),
        big(5),
        big(4) * two(64.min(bits - 5)),
        two(64.min(bits - 2)),
        two(bits - 2),
        two(64.min(bits - 2)) - 1,
        BigInt::one(),
        m - 1,
        &b >> 8u32,
        &b & ((BigInt::one() << (bits / 2)) - 1),
    ];
    for j in 0..40 {
        v.push(&b + big(j + 2) * two(bits / 2));
    }
    let mut seen = std::collections::HashSet::new();
    v.into_iter().map(|x| nt::red(&x, m)).filter(|x| seen.insert(x.clone())).collect()
}
trait Words {
    fn iter_u64_digits_(&self) -> Vec<u64>;
}
impl Words for BigInt {
    fn iter_u64_digits_(&self) -> Vec<u64> {
        self.magnitude().iter_u64_digits().collect()
    }
}

/// 5 mod 8 and 3 mod 4.
fn p255() -> BigInt {
    two(255) - 19
}
fn p127() -> BigInt {
    two(127) - 1
}
fn of<T: Clone>(v: &[T], n: usize) -> T {
    v[n % v.len()].clone()
}
fn unary(p: fn() -> BigInt, f: fn(&Fp, &Elt) -> String) -> Make {
    let p = p();
    let g = Fp::new(nt::ubig(&p));
    let v = alikes(&p);
    Box::new(move |n| {
        let (g, x) = (g.clone(), g.elt(of(&v, n)));
        Box::new(move || ans(|| f(&g, &x)))
    })
}
/// The pairs of the first numbers of a list, in an order in which both change.
fn pair<T: Clone>(v: &[T], n: usize) -> (T, T) {
    let (i, j) = if n < 25 { (n % 5, (n / 5 + n) % 5) } else { (n % v.len(), (n / v.len() + n) % v.len()) };
    (of(v, i), of(v, j))
}
fn binary(p: fn() -> BigInt, f: fn(&Elt, &Elt) -> String) -> Make {
    let p = p();
    let g = Fp::new(nt::ubig(&p));
    let v = alikes(&p);
    Box::new(move |n| {
        let (a, b) = pair(&v, n);
        let (x, y) = (g.elt(a), g.elt(b));
        Box::new(move || ans(|| f(&x, &y)))
    })
}
fn quadratic(f: fn(&Fp2, &redox_ecc::quadraticfield::Fp2Elt) -> String) -> Make {
    let p = p127();
    let g = Fp2::new(nt::ubig(&p));
    let v = alikes(&p);
    Box::new(move |n| {
        let (a, b) = pair(&v, n);
        let x = g.from(format!("{a},{b}").as_str());
        let g = g.clone();
        Box::new(move || ans(|| f(&g, &x)))
    })
}
/// Primes that are alike, of a class modulo 8: with the same low words, then with the same high words.
fn alike_primes(class: u32) -> Vec<BigInt> {
    let b = (base(&two(150)) & ((BigInt::one() << 147u32) - 1)) >> 3u32 << 3u32;
    let mut v: Vec<BigInt> = vec![];
    let first = (0..).map(|k| &b + big(8 * k) + class).find(nt::probably_prime).unwrap();
    let low = (0..).map(|k| &first + big(k) * two(64)).filter(nt::probably_prime).take(8);
    let high = (1..).map(|k| &first + big(8 * k)).filter(nt::probably_prime).take(8);
    let middle = (1..).map(|k| &first + big(k) * two(32)).filter(nt::probably_prime).take(8);
    for ((x, y), z) in low.zip(high).zip(middle) {
        v.push(x);
        v.push(y);
        v.push(z);
    }
    v
}
fn fields(class: u32, f: fn(&Fp, &BigInt) -> String) -> Make {
    let v = alike_primes(class);
    let x = base(&two(140));
    Box::new(move |n| {
        let f_ = Fp::new(nt::ubig(&of(&v, n)));
        let x = x.clone();
        Box::new(move || ans(|| f(&f_, &x)))
    })
}
/// Octet strings that agree in their first or their last octets, or but for one octet, or but for their length.
fn octets() -> Vec<Vec<u8>> {
    let b = nt::be_bytes(&base(&two(250)), 32);
    let mut v = vec![b.clone()];
    for k in [0usize, 31, 7, 8, 23, 24, 1, 30] {
        let mut w = b.clone();
        w[k] ^= 1;
        v.push(w);
    }
    for k in [1, 8, 16, 31] {
        v.push(b[k..].to_vec());
        v.push(b[..32 - k].to_vec());
        v.push([vec![0; k], b.clone()].concat());
        v.push([b.clone(), vec![0; k]].concat());
    }
    let mut w = b.clone();
    w.reverse();
    v.push(w);
    let mut w = b.clone();
    w.swap(0, 31);
    v.push(w);
    v.push(vec![]);
    v
}

/// The projective coordinates, as they are displayed.
fn lines(s: String) -> Vec<String> {
    s.lines().filter_map(|l| l.split_once(": ")).filter(|l| l.0 != "t").map(|l| l.1.to_string()).collect()
}
/// Points of a small curve that agree in two of three projective coordinates.
fn alike_points<K: Kind>() -> (Rc<K::C>, Vec<K::P>) {
    let l = list(K::MODEL);
    let x = l.iter().rev().find(|x| x.pts.len() > 14).unwrap_or(l.last().unwrap());
    let c = Rc::new(x.build::<K>());
    let pts = x.points::<K>(&c);
    let mut sums: Vec<(Vec<String>, K::P)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for p in &pts {
        for q in &pts {
            let s = K::add(p, q);
            let k = lines(s.to_string());
            if k.len() == 3 && seen.insert(k.clone()) {
                sums.push((k, s));
            }
        }
    }
    let mut groups: [HashMap<[String; 2], Vec<usize>>; 3] = Default::default();
    for (i, (k, _)) in sums.iter().enumerate() {
        for (d, g) in groups.iter_mut().enumerate() {
            g.entry([k[(d + 1) % 3].clone(), k[(d + 2) % 3].clone()]).or_default().push(i);
        }
    }
    let mut v = vec![];
    let mut have = std::collections::HashSet::new();
    let mut lists: Vec<Vec<Vec<usize>>> = groups
        .into_iter()
        .map(|g| {
            let mut w: Vec<Vec<usize>> = g.into_values().filter(|x| x.len() > 1).collect();
            w.sort();
            w
        })
        .collect();
    // in turn from the three groups
    while lists.iter().any(|l| !l.is_empty()) && v.len() < 400 {
        for l in &mut lists {
            if let Some(g) = l.pop() {
                for i in g.into_iter().take(3) {
                    if have.insert(i) {
                        v.push(sums[i].1.clone());
                    }
                }
            }
        }
    }
    v.extend(pts);
    (c, v)
}
fn same_coordinates<K: Kind>(f: fn(&K::C, &K::P) -> String) -> Make
where
    K: 'static,
{
    let (c, v) = alike_points::<K>();
    Box::new(move |n| {
        let (c, q) = (c.clone(), of(&v, n));
        Box::new(move || ans(|| f(&c, &q)))
    })
}
fn same_coordinates2<K: Kind + 'static>(f: fn(&K::P, &K::P) -> String) -> Make {
    let (_, v) = alike_points::<K>();
    Box::new(move |n| {
        let (q, r) = pair(&v, n);
        Box::new(move || ans(|| f(&q, &r)))
    })
}
/// One affine point on different curves over one field.
fn other_curves<K: Kind + 'static>(f: fn(&K::C, &K::P) -> String) -> Make {
    let p = 31;
    let mut by: HashMap<(u64, u64), Vec<usize>> = HashMap::new();
    let l = list(K::MODEL);
    for (i, x) in l.iter().enumerate().filter(|x| x.1.p == p) {
        for q in x.pts.iter().flatten() {
            by.entry(*q).or_default().push(i);
        }
    }
    let (q, cs) = by.into_iter().max_by_key(|(q, v)| (q.0 != 0 && q.1 != 0, v.len(), *q)).unwrap();
    Box::new(move |n| {
        let x = &l[cs[n % cs.len()]];
        let c = x.build::<K>();
        let q = x.rf.point::<K>(&c, &Some(q));
        Box::new(move || ans(|| f(&c, &q)))
    })
}
/// A wide curve, and points of it with their opposites.
fn wide<K: Kind>(bits: usize, a: bool) -> Named<K> {
    let i = wide_rows::<K>().iter().position(|r| r.0 as usize >= bits && (!a || r.1[1] != "0" && r.1[2] != "0")).unwrap();
    named::<K>(WIDE + i)
}
fn wide_points<K: Kind>() -> (K::C, Vec<K::P>) {
    let n = wide::<K>(80, false);
    let mut v = vec![];
    for q in n.lifted(8) {
        v.push(n.pt(&q));
        v.push(K::neg(&n.pt(&q)));
    }
    let g = n.c.get_generator();
    v.push(g.clone());
    v.push(K::neg(&g));
    v.push(K::add(&g, &g));
    v.push(n.c.identity());
    (n.c, v)
}
fn opposite<K: Kind + 'static>(f: fn(&K::C, &K::P) -> String) -> Make {
    let (c, v) = wide_points::<K>();
    let c = Rc::new(c);
    Box::new(move |n| {
        let (c, q) = (c.clone(), of(&v, n));
        Box::new(move || ans(|| f(&c, &q)))
    })
}
fn opposite2<K: Kind + 'static>(f: fn(&K::P, &K::P) -> String) -> Make {
    let (_, v) = wide_points::<K>();
    Box::new(move |n| {
        let (q, r) = pair(&v, n);
        Box::new(move || ans(|| f(&q, &r)))
    })
}
fn affine<K: Kind>(p: &K::P) -> String {
    let mut q = p.clone();
    K::normalize(&mut q);
    q.to_string()
}
fn wide_scalars<K: Kind + 'static>() -> Make {
    let n = wide::<K>(80, false);
    let v = alikes(&n.r);
    let g = n.c.get_generator();
    Box::new(move |i| {
        let k = n.c.new_scalar(of(&v, i));
        let g = g.clone();
        Box::new(move || ans(|| affine::<K>(&K::mul(&g, &k))))
    })
}
fn scalars<K: Kind + 'static>(f: fn(&K::S) -> String) -> Make {
    let r = two(127) - 1;
    let v = alikes(&r);
    let r = nt::ubig(&r);
    Box::new(move |n| {
        let k = K::s_new(of(&v, n), &r);
        Box::new(move || ans(|| f(&k)))
    })
}
fn scalars2<K: Kind + 'static>(f: fn(&K::S, &K::S) -> String) -> Make {
    let r = two(127) - 1;
    let v = alikes(&r);
    let r = nt::ubig(&r);
    Box::new(move |n| {
        let (a, b) = pair(&v, n);
        let (a, b) = (K::s_new(a, &r), K::s_new(b, &r));
        Box::new(move || ans(|| f(&a, &b)))
    })
}
/// One number modulo orders that are alike.
fn alike_orders<K: Kind + 'static>(f: fn(&K::S) -> String) -> Make {
    let v = alike_primes(3);
    let k = base(&two(140));
    Box::new(move |n| {
        let a = K::s_new(k.clone(), &nt::ubig(&of(&v, n)));
        Box::new(move || ans(|| f(&a)))
    })
}
fn wide_strings<K: Kind + 'static>() -> Make {
    let (c, pts) = wide_points::<K>();
    let c = Rc::new(c);
    let mut v: Vec<Vec<u8>> = vec![];
    for q in pts.iter().take(4) {
        let (a, b) = (q.encode(true), q.encode(false));
        let (k, l) = (a.len(), b.len());
        for (s, at) in [(&a, 0), (&a, k - 1), (&a, 1), (&b, l - 1), (&b, 0)] {
            v.push(s.clone());
            let mut w = s.clone();
            w[at] ^= 1;
            v.push(w);
        }
        v.push(a[..k - 1].to_vec());
        v.push([&a[..], &[0]].concat());
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(s.clone()));
    Box::new(move |n| {
        let (c, s) = (c.clone(), of(&v, n));
        Box::new(move || ans(|| c.decode(&s).map(|q| q.to_string()).unwrap_or("Err".into())))
    })
}
/// Curves that agree in everything but one parameter.
fn alike_curves<K: Kind + 'static>(f: fn(&K::C) -> String) -> Make {
    let p = 31;
    let l: Vec<&'static Toy> = list(K::MODEL).iter().filter(|x| x.p == p).collect();
    let mut v: Vec<Text> = vec![];
    for x in l.iter().take(6) {
        let t = |r: u64, h: u64, g: usize| {
            let (gx, gy) = x.pts[g].unwrap();
            Text { p: p.to_string(), a: x.rf.a.to_string(), b: x.rf.b.to_string(), s: x.s.to_string(), r: r.to_string(), h: h.to_string(), gx: gx.to_string(), gy: gy.to_string() }
        };
        v.push(t(x.r, x.h, x.gen));
        v.push(t(x.r + 2, x.h, x.gen));
        v.push(t(x.r, x.h + 1, x.gen));
        if let Some(g) = (1..x.pts.len()).find(|g| *g != x.gen && x.ord[*g] == x.r) {
            v.push(t(x.r, x.h, g));
        }
    }
    Box::new(move |n| {
        let c = K::build(&v[n % v.len()]);
        Box::new(move || ans(|| f(&c)))
    })
}
fn fitting<T>(f: impl Fn(u64) -> T) -> T {
    (1..200).find_map(|z| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(z))).ok()).expect("no parameter fits")
}
/// Alike inputs of one map.
macro_rules! inputs {
    ($map:expr, $f:expr, $p:expr) => {{
        let (m, f, v) = (Rc::new($map), $f, alikes(&$p));
        Box::new(move |n| {
            let (m, u) = (m.clone(), f.elt(of(&v, n)));
            Box::new(move || ans(|| hexs(&m.map(&u).encode(false))))
        })
    }};
}
fn bytes<T: Serialize>(x: &T) -> String {
    format!("{} {}", hexs(&x.to_bytes_be()), hexs(&x.to_bytes_le()))
}

pub static KINDS: &[(&str, fn() -> Make)] = &[
    ("alike: roots 5 mod 8", || unary(p255, |_, x| x.sqrt().to_string())),
    ("alike: roots 3 mod 4", || unary(p127, |_, x| x.sqrt().to_string())),
    ("alike: squares", || unary(p127, |_, x| x.is_square().to_string())),
    ("alike: inverses", || unary(p255, |_, x| (1u32 / x).to_string())),
    ("alike: squares of", || unary(p255, |_, x| (x * x).to_string())),
    ("alike: negatives", || unary(p255, |_, x| (-x).to_string())),
    ("alike: octets", || unary(p255, |_, x| bytes(x))),
    ("alike: signs", || unary(p255, |_, x| format!("{}{}{}", x.sgn0(), x.is_zero(), x.is_one()))),
    ("alike: display", || unary(p255, |_, x| x.to_string())),
    ("alike: cubes", || unary(p127, |_, x| (x ^ 3u32).to_string())),
    ("alike: products", || binary(p255, |x, y| (x * y).to_string())),
    ("alike: quotients", || binary(p127, |x, y| (x / y).to_string())),
    ("alike: sums", || binary(p255, |x, y| (x + y).to_string())),
    ("alike: differences", || binary(p255, |x, y| (x - y).to_string())),
    ("alike: equality", || binary(p255, |x, y| (x == y).to_string())),
    ("alike: exponents", || {
        let f = Fp::new(nt::ubig(&p127()));
        let v = alikes(&two(126));
        Box::new(move |n| {
            let (x, e) = (f.elt(big(5)), of(&v, n));
            let u = nt::ubig(&e);
            Box::new(move || ans(|| if n.is_multiple_of(2) { (&x ^ &e).to_string() } else { (&x ^ &u).to_string() }))
        })
    }),
    ("alike: powers", || {
        let f = Fp::new(nt::ubig(&p127()));
        let (v, e) = (alikes(&p127()), alikes(&two(100)));
        Box::new(move |n| {
            let (i, j) = (n % 5, (n / 5 + n) % 5);
            let (x, e) = (f.elt(of(&v, i + n / 25)), of(&e, j));
            Box::new(move || ans(|| (&x ^ &e).to_string()))
        })
    }),
    ("alike: integers", || {
        let p = p127();
        let f = Fp::new(nt::ubig(&p));
        let v = alikes(&two(300));
        Box::new(move |n| {
            let (f, k) = (f.clone(), if n % 3 == 2 { -of(&v, n) } else { of(&v, n) });
            Box::new(move || ans(|| f.elt(k.clone()).to_string()))
        })
    }),
    ("alike: numerals", || {
        let f = Fp::new(nt::ubig(&p127()));
        let v = alikes(&two(140));
        Box::new(move |n| {
            let x = &v[n / 4 % v.len()];
            let s = match n % 4 {
                0 => x.to_string(),
                1 => format!("-{x}"),
                2 => format!("0x{x:x}"),
                // the digits of a hexadecimal number, read as decimal ones where that is possible
                _ => format!("0x{x}"),
            };
            let f = f.clone();
            Box::new(move || ans(|| FromFactory::<&str>::from(&f, s.as_str()).to_string()))
        })
    }),
    ("alike: octets read", || {
        let f = Fp::new(nt::ubig(&p255()));
        let v = octets();
        Box::new(move |n| {
            let (f, s) = (f.clone(), of(&v, n));
            Box::new(move || ans(|| format!("{} {}", f.from_bytes_be(&s).unwrap(), f.from_bytes_le(&s).unwrap())))
        })
    }),
    ("alike: octets read in turn", || {
        let f = Fp::new(nt::ubig(&p255()));
        let v = octets();
        Box::new(move |n| {
            let (f, s) = (f.clone(), of(&v, n / 2));
            Box::new(move || ans(|| if n.is_multiple_of(2) { f.from_bytes_be(&s) } else { f.from_bytes_le(&s) }.unwrap().to_string()))
        })
    }),
    ("alike: quadratic roots", || quadratic(|_, x| x.sqrt().to_string())),
    ("alike: quadratic squares", || quadratic(|_, x| x.is_square().to_string())),
    ("alike: quadratic inverses", || quadratic(|_, x| (1u32 / x).to_string())),
    ("alike: quadratic products", || quadratic(|_, x| (x * x).to_string())),
    ("alike: quadratic octets", || quadratic(|_, x| format!("{} {}", bytes(x), x.sgn0()))),
    ("alike: fields, roots 5 mod 8", || fields(5, |f, x| f.elt(x * x).sqrt().to_string())),
    ("alike: fields, roots 3 mod 8", || fields(3, |f, x| f.elt(x * x).sqrt().to_string())),
    ("alike: fields, squares", || fields(7, |f, x| f.elt(x.clone()).is_square().to_string())),
    ("alike: fields, inverses", || fields(5, |f, x| (1u32 / &f.elt(x.clone())).to_string())),
    ("alike: fields, products", || fields(5, |f, x| (f.elt(x.clone()) * f.elt(x + 1)).to_string())),
    ("alike: fields, powers", || fields(1, |f, x| (&f.elt(x.clone()) ^ x).to_string())),
    ("alike: fields, negatives", || fields(1, |f, x| bytes(&-f.elt(x.clone())))),
    ("alike: fields, display", || fields(1, |f, _| format!("{f} {}", f.size_bytes()))),
    ("W alike: points, doubled", || same_coordinates::<W>(|_, p| affine::<W>(&W::add(p, p)))),
    ("E alike: points, doubled", || same_coordinates::<E>(|_, p| affine::<E>(&E::add(p, p)))),
    ("M alike: points, doubled", || same_coordinates::<M>(|_, p| affine::<M>(&M::add(p, p)))),
    ("W alike: points, multiplied", || same_coordinates::<W>(|c, p| affine::<W>(&W::mul(p, &c.new_scalar(big(5)))))),
    ("E alike: points, multiplied", || same_coordinates::<E>(|c, p| affine::<E>(&E::mul(p, &c.new_scalar(big(5)))))),
    ("M alike: points, multiplied", || same_coordinates::<M>(|c, p| affine::<M>(&M::mul(p, &c.new_scalar(big(5)))))),
    ("W alike: points, encoded", || same_coordinates::<W>(|_, p| hexs(&p.encode(true)))),
    ("E alike: points, encoded", || same_coordinates::<E>(|_, p| hexs(&p.encode(true)))),
    ("M alike: points, encoded", || same_coordinates::<M>(|_, p| hexs(&p.encode(true)))),
    ("W alike: points, normalized", || same_coordinates::<W>(|_, p| affine::<W>(p))),
    ("E alike: points, normalized", || same_coordinates::<E>(|_, p| affine::<E>(p))),
    ("M alike: points, normalized", || same_coordinates::<M>(|_, p| affine::<M>(p))),
    ("W alike: points, opposites", || same_coordinates::<W>(|c, p| format!("{} {}", affine::<W>(&W::neg(p)), c.is_on_curve(p)))),
    ("E alike: points, opposites", || same_coordinates::<E>(|c, p| format!("{} {}", affine::<E>(&E::neg(p)), c.is_on_curve(p)))),
    ("M alike: points, opposites", || same_coordinates::<M>(|c, p| format!("{} {}", affine::<M>(&M::neg(p)), c.is_on_curve(p)))),
    ("W alike: points, added", || same_coordinates2::<W>(|p, q| affine::<W>(&W::add(p, q)))),
    ("E alike: points, added", || same_coordinates2::<E>(|p, q| affine::<E>(&E::add(p, q)))),
    ("M alike: points, added", || same_coordinates2::<M>(|p, q| affine::<M>(&M::add(p, q)))),
    ("W alike: points, subtracted", || same_coordinates2::<W>(|p, q| affine::<W>(&W::sub(p, q)))),
    ("E alike: points, subtracted", || same_coordinates2::<E>(|p, q| affine::<E>(&E::sub(p, q)))),
    ("M alike: points, subtracted", || same_coordinates2::<M>(|p, q| affine::<M>(&M::sub(p, q)))),
    ("W alike: points, compared", || same_coordinates2::<W>(|p, q| (p == q).to_string())),
    ("E alike: points, compared", || same_coordinates2::<E>(|p, q| (p == q).to_string())),
    ("M alike: points, compared", || same_coordinates2::<M>(|p, q| (p == q).to_string())),
    ("W alike: one point on many curves, doubled", || other_curves::<W>(|_, p| affine::<W>(&W::add(p, p)))),
    ("E alike: one point on many curves, doubled", || other_curves::<E>(|_, p| affine::<E>(&E::add(p, p)))),
    ("M alike: one point on many curves, doubled", || other_curves::<M>(|_, p| affine::<M>(&M::add(p, p)))),
    ("W alike: one point on many curves, multiplied", || other_curves::<W>(|c, p| affine::<W>(&W::mul(p, &c.new_scalar(big(3)))))),
    ("E alike: one point on many curves, multiplied", || other_curves::<E>(|c, p| affine::<E>(&E::mul(p, &c.new_scalar(big(3)))))),
    ("M alike: one point on many curves, multiplied", || other_curves::<M>(|c, p| affine::<M>(&M::mul(p, &c.new_scalar(big(3)))))),
    ("W alike: one string on many curves", || other_curves::<W>(|c, p| c.decode(&p.encode(true)).map(|q| q.to_string()).unwrap_or("Err".into()))),
    ("E alike: one string on many curves", || other_curves::<E>(|c, p| c.decode(&p.encode(true)).map(|q| q.to_string()).unwrap_or("Err".into()))),
    ("M alike: one string on many curves", || other_curves::<M>(|c, p| c.decode(&p.encode(true)).map(|q| q.to_string()).unwrap_or("Err".into()))),
    ("W alike: opposites, doubled", || opposite::<W>(|_, p| affine::<W>(&W::add(p, p)))),
    ("E alike: opposites, doubled", || opposite::<E>(|_, p| affine::<E>(&E::add(p, p)))),
    ("M alike: opposites, doubled", || opposite::<M>(|_, p| affine::<M>(&M::add(p, p)))),
    ("W alike: opposites, multiplied", || opposite::<W>(|c, p| affine::<W>(&W::mul(p, &c.new_scalar(big(29)))))),
    ("E alike: opposites, multiplied", || opposite::<E>(|c, p| affine::<E>(&E::mul(p, &c.new_scalar(big(29)))))),
    ("M alike: opposites, multiplied", || opposite::<M>(|c, p| affine::<M>(&M::mul(p, &c.new_scalar(big(29)))))),
    ("W alike: opposites, encoded", || opposite::<W>(|_, p| hexs(&p.encode(true)))),
    ("E alike: opposites, encoded", || opposite::<E>(|_, p| hexs(&p.encode(true)))),
    ("M alike: opposites, encoded", || opposite::<M>(|_, p| hexs(&p.encode(true)))),
    ("W alike: opposites, added", || opposite2::<W>(|p, q| affine::<W>(&W::add(p, q)))),
    ("E alike: opposites, added", || opposite2::<E>(|p, q| affine::<E>(&E::add(p, q)))),
    ("M alike: opposites, added", || opposite2::<M>(|p, q| affine::<M>(&M::add(p, q)))),
    ("W alike: multiples", wide_scalars::<W>),
    ("E alike: multiples", wide_scalars::<E>),
    ("M alike: multiples", wide_scalars::<M>),
    ("W alike: strings", wide_strings::<W>),
    ("E alike: strings", wide_strings::<E>),
    ("M alike: strings", wide_strings::<M>),
    ("W alike: curves, generators", || alike_curves::<W>(|c| hexs(&c.get_generator().encode(false)))),
    ("E alike: curves, generators", || alike_curves::<E>(|c| hexs(&c.get_generator().encode(false)))),
    ("M alike: curves, generators", || alike_curves::<M>(|c| hexs(&c.get_generator().encode(false)))),
    ("W alike: curves, orders", || alike_curves::<W>(|c| format!("{} {} {}", c.get_order(), c.get_cofactor(), c.new_scalar(big(-1))))),
    ("E alike: curves, orders", || alike_curves::<E>(|c| format!("{} {} {}", c.get_order(), c.get_cofactor(), c.new_scalar(big(-1))))),
    ("M alike: curves, orders", || alike_curves::<M>(|c| format!("{} {} {}", c.get_order(), c.get_cofactor(), c.new_scalar(big(-1))))),
    ("W alike: scalars, inverses", || scalars::<W>(|k| W::s_inv(k).to_string())),
    ("E alike: scalars, inverses", || scalars::<E>(|k| E::s_inv(k).to_string())),
    ("M alike: scalars, inverses", || scalars::<M>(|k| M::s_inv(k).to_string())),
    ("W alike: scalars, octets", || scalars::<W>(bytes)),
    ("E alike: scalars, octets", || scalars::<E>(bytes)),
    ("M alike: scalars, octets", || scalars::<M>(bytes)),
    ("W alike: scalars, digits", || scalars::<W>(|k| format!("{:?}{:?}", W::lr(k, 200), W::rl(k, 200)))),
    ("E alike: scalars, digits", || scalars::<E>(|k| format!("{:?}{:?}", E::lr(k, 200), E::rl(k, 200)))),
    ("M alike: scalars, digits", || scalars::<M>(|k| format!("{:?}{:?}", M::lr(k, 200), M::rl(k, 200)))),
    ("W alike: scalars, products", || scalars2::<W>(|a, b| W::s_bin('*', a, b, 0).to_string())),
    ("E alike: scalars, products", || scalars2::<E>(|a, b| E::s_bin('*', a, b, 0).to_string())),
    ("M alike: scalars, products", || scalars2::<M>(|a, b| M::s_bin('*', a, b, 0).to_string())),
    ("W alike: scalars, sums", || scalars2::<W>(|a, b| format!("{} {}", W::s_bin('+', a, b, 0), W::s_bin('-', a, b, 0)))),
    ("E alike: scalars, sums", || scalars2::<E>(|a, b| format!("{} {}", E::s_bin('+', a, b, 0), E::s_bin('-', a, b, 0)))),
    ("M alike: scalars, sums", || scalars2::<M>(|a, b| format!("{} {}", M::s_bin('+', a, b, 0), M::s_bin('-', a, b, 0)))),
    ("W alike: orders", || alike_orders::<W>(|k| W::s_inv(k).to_string())),
    ("E alike: orders", || alike_orders::<E>(|k| E::s_inv(k).to_string())),
    ("M alike: orders", || alike_orders::<M>(|k| M::s_inv(k).to_string())),
    ("alike: inputs of SSWU", || {
        let n = wide::<W>(80, true);
        let f = n.c.get_field();
        inputs!(fitting(|z| weierstrass::SSWU::new(n.c.clone(), fe(&f, z))), f.clone(), n.rf.ar.0)
    }),
    ("alike: inputs of SVDW", || {
        let n = wide::<W>(80, false);
        let f = n.c.get_field();
        inputs!(fitting(|z| weierstrass::SVDW::new(n.c.clone(), fe(&f, z))), f.clone(), n.rf.ar.0)
    }),
    ("alike: inputs of Elligator 2", || {
        // the generated curves of this model have a = 0, which does not suit this map
        let c = M::named("CURVE25519").unwrap();
        let f = c.get_field();
        inputs!(fitting(|z| montgomery::Ell2::new(c.clone(), fe(&f, z))), f.clone(), p255())
    }),
    ("alike: opposites through the 25519 maps", || {
        let m = Rc::new(instances::edwards25519_to_curve25519());
        let (ge, gc) = (m.domain().get_generator(), m.codomain().get_generator());
        let mut es = vec![];
        let mut ms = vec![];
        let (mut e, mut c) = (ge.clone(), gc.clone());
        for _ in 0..6 {
            es.extend([e.clone(), E::neg(&e)]);
            ms.extend([c.clone(), M::neg(&c)]);
            (e, c) = (E::add(&e, &ge), M::add(&c, &gc));
        }
        Box::new(move |n| {
            let (m, q, r) = (m.clone(), of(&es, n / 2), of(&ms, n / 2));
            Box::new(move || ans(|| if n.is_multiple_of(2) { hexs(&m.push(q.clone()).encode(true)) } else { hexs(&m.pull(r.clone()).encode(true)) }))
        })
    }),
    ("alike: opposites through the 3-isogeny", || {
        let m = Rc::new(instances::get_isogeny_secp256k1());
        let g = m.domain().get_generator();
        let mut v = vec![];
        let mut q = g.clone();
        for _ in 0..8 {
            v.extend([q.clone(), W::neg(&q)]);
            q = W::add(&q, &g);
        }
        Box::new(move |n| {
            let (m, q) = (m.clone(), of(&v, n));
            Box::new(move || ans(|| hexs(&m.push(q.clone()).encode(true))))
        })
    }),
];
