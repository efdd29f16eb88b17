//! C26, long histories: many alike structures, and long sequences of single calls.
//!
//! A kind is a sequence of things, each with one question. The answer of a thing does not depend on which other
//! things were built or asked before, nor on how often: the oracle is the answer in a process that builds and asks
//! nothing else.

use crate::api::*;
use crate::hist::{self, hexs, t, toys_once};
use crate::nt::{self, big};
use crate::p_maps::{sswu_ok, svdw_ok};
use crate::refcurve::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EllipticCurve, Encode, Isogeny, MapToCurve, RationalMap};
use redox_ecc::instances;
use redox_ecc::primefield::Fp;
use redox_ecc::quadraticfield::Fp2;
use redox_ecc::{edwards, montgomery, weierstrass};
use std::rc::Rc;
use std::sync::OnceLock;

pub type Ask = Box<dyn Fn() -> String>;
pub type Make = Box<dyn Fn(usize) -> Ask>;

/// The primes of a class modulo 8 or 4, in increasing order.
fn prime(n: usize, class: u64, modulo: u64) -> u64 {
    static P: OnceLock<Vec<u64>> = OnceLock::new();
    let v = P.get_or_init(|| {
        let top = 200_000usize;
        let mut s = vec![true; top];
        let mut v = vec![];
        for i in 2..top {
            if s[i] {
                (i * i..top).step_by(i).for_each(|j| s[j] = false);
                if i > 5 {
                    v.push(i as u64);
                }
            }
        }
        v
    });
    let mut i = v.iter().filter(|p| *p % modulo == class);
    let l = i.clone().count();
    *i.nth(n % l).unwrap()
}
const LIMIT: usize = 2500;
/// Small curves of a model, over fields of all classes, in an order in which the field changes at every step.
pub fn list(m: Model) -> &'static Vec<Toy> {
    static L: [OnceLock<Vec<Toy>>; 3] = [const { OnceLock::new() }; 3];
    L[m as usize].get_or_init(|| {
        let mut by: Vec<std::vec::IntoIter<(u64, u64, u64, u64)>> = vec![];
        for p in [11u64, 13, 19, 23, 29, 31] {
            by.push(universe(m, p).into_iter().map(move |(a, b, s)| (p, a, b, s)).collect::<Vec<_>>().into_iter());
        }
        let mut v = vec![];
        loop {
            let before = v.len();
            for i in &mut by {
                v.extend(i.next());
            }
            if v.len() == before || v.len() > LIMIT {
                return v.iter().map(|c| toy(m, c)).collect();
            }
        }
    })
}
/// The answer: refused calls have one too.
fn ans(f: impl FnMut() -> String) -> String {
    let mut o = String::new();
    t(&mut o, f);
    o
}
fn field_of(p: u64) -> Fp {
    Fp::new(BigUint::from(p))
}
/// A root, by its square and by itself.
fn root(x: &Elt) -> String {
    let s = x * x;
    let r = s.sqrt();
    format!("{},{r}", &r * &r == s)
}

fn curves<K: Kind>() -> Make {
    Box::new(|n| {
        let l = list(K::MODEL);
        let c = l[n % l.len()].build::<K>();
        let (k, o) = (c.new_scalar(big(n as i64 + 2)), K::named(["P256", "EDWARDS25519", "CURVE448"][K::MODEL as usize]).is_some());
        Box::new(move || {
            ans(|| {
                let g = c.get_generator();
                let d = K::add(&g, &g);
                format!("{},{},{},{},{o}", hexs(&d.encode(true)), hexs(&K::mul(&g, &k).encode(false)), c.is_on_curve(&d), c.get_order())
            })
        })
    })
}
fn decoders<K: Kind>() -> Make {
    Box::new(|n| {
        let l = list(K::MODEL);
        let c = l[n % l.len()].build::<K>();
        Box::new(move || {
            let mut o = String::new();
            for s in [&[2, 3][..], &[3, 3], &[5], &[4, 2, 2]] {
                t(&mut o, || c.decode(s).map(|q| hexs(&q.encode(false))).unwrap_or("Err".into()));
            }
            o
        })
    })
}
/// Octet strings for one curve, good and bad ones: one string is one thing.
fn strings<K: Kind>() -> Make {
    let l = list(K::MODEL);
    let x = &l[41.min(l.len() - 1)];
    let c = Rc::new(x.build::<K>());
    let pts = x.points::<K>(&c);
    let mut v: Vec<Vec<u8>> = vec![];
    for i in 0..9 {
        let q = &pts[i % pts.len()];
        v.push(q.encode(true));
        v.push(q.encode(false));
        let mut w = q.encode(false);
        *w.last_mut().unwrap() ^= 1;
        v.push(w);
        let mut w = q.encode(false);
        w.push(0);
        v.push(w);
        v.push(vec![4, 1, i as u8]);
        v.push(vec![2 + i as u8 % 2, i as u8]);
        v.push(vec![i as u8]);
        v.push(vec![i as u8, 255]);
        v.push(vec![4, 40 + i as u8, 1]);
    }
    v.push(vec![]);
    Box::new(move |n| {
        let mut s = v[n % v.len()].clone();
        // beyond the good ones: strings that carry the number, and are refused or reduced all the same way
        if n >= v.len() && !s.is_empty() {
            let k = s.len();
            s[k - 1] = s[k - 1].wrapping_add((n / v.len()) as u8);
        }
        let c = c.clone();
        Box::new(move || ans(|| c.decode(&s).map(|q| format!("{},{}", hexs(&q.encode(false)), q.encode(true).len())).unwrap_or("Err".into())))
    })
}
/// Points of one curve, in projective coordinates of their own.
fn points<K: Kind>() -> Make {
    let l = list(K::MODEL);
    let x = &l[l.len() - 1];
    let c = Rc::new(x.build::<K>());
    let pts = Rc::new(x.points::<K>(&c));
    Box::new(move |n| {
        let m = pts.len();
        let q = K::add(&pts[n % m], &pts[(n / m) % m]);
        let g = pts[1].clone();
        Box::new(move || {
            ans(|| {
                let mut r = q.clone();
                K::normalize(&mut r);
                format!("{},{},{},{}", hexs(&q.encode(true)), r, r == q, hexs(&K::add(&q, &g).encode(false)))
            })
        })
    })
}
fn new_points<K: Kind>() -> Make {
    let l = list(K::MODEL);
    let x = &l[17.min(l.len() - 1)];
    let c = Rc::new(x.build::<K>());
    let f = c.get_field();
    Box::new(move |n| {
        let (x, y) = (f.elt(big((n % 13) as i64)), f.elt(big((n / 13) as i64)));
        let c = c.clone();
        Box::new(move || ans(|| hexs(&c.new_point(x.clone(), y.clone()).encode(false))))
    })
}
fn multiples<K: Kind>() -> Make {
    let l = list(K::MODEL);
    let x = &l[l.len() - 2];
    let c = Rc::new(x.build::<K>());
    let pts = Rc::new(x.points::<K>(&c));
    Box::new(move |n| {
        let k = c.new_scalar(big(n as i64 - 3));
        let q = pts[n % 5 % pts.len()].clone();
        Box::new(move || ans(|| format!("{},{k}", hexs(&K::mul(&q, &k).encode(false)))))
    })
}
fn orders<K: Kind>() -> Make {
    Box::new(|n| {
        // an order in three has more octets than the one before
        let r = BigUint::from(prime(n / 3 + 40 * (n % 3), 3, 4)) * if n % 3 == 2 { BigUint::from(1u32) << 77 } else { BigUint::from(1u32) };
        let a = K::s_new(big(-2), &r);
        Box::new(move || ans(|| format!("{a},{},{},{:?}", K::s_add(&a, &a)[0], hexs(&a.to_bytes_be()), K::lr(&a, 9))))
    })
}
fn scalars<K: Kind>() -> Make {
    Box::new(|n| {
        let r = BigUint::from(65537u32);
        let (a, b) = (K::s_new(big(n as i64 + 1), &r), K::s_new(big(3), &r));
        Box::new(move || ans(|| format!("{},{},{},{:?}{:?}", K::s_inv(&a), K::s_div(&b, &a)[0], hexs(&a.to_bytes_le()), K::lr(&a, 40), K::rl(&a, 40))))
    })
}
fn elements(p: u64, f: fn(&Fp, &Elt, usize) -> String) -> Make {
    let g = field_of(p);
    Box::new(move |n| {
        let (g, x) = (g.clone(), fe(&g, n as u64 % p));
        Box::new(move || ans(|| f(&g, &x, n)))
    })
}
fn elements2(p: u32, f: fn(&Fp2, &redox_ecc::quadraticfield::Fp2Elt) -> String) -> Make {
    let g = Fp2::new(BigUint::from(p));
    Box::new(move |n| {
        let x = g.from(format!("{},{}", n % 61, n / 61).as_str());
        let g = g.clone();
        Box::new(move || ans(|| f(&g, &x)))
    })
}

/// Calls that are refused with a panic, each followed by the same call on operands that fit.
fn refused_elements() -> Make {
    let (f, g) = (field_of(65539), field_of(65557));
    let (f2, g2) = (Fp2::new(BigUint::from(1019u32)), Fp2::new(BigUint::from(1031u32)));
    Box::new(move |n| {
        let k = (n / 20) as u64 + 3;
        let (x, y, z) = (fe(&f, k), fe(&f, k + 4), fe(&g, k));
        let (x2, y2, z2) = (f2.from(big_i32(k)), f2.from("7,3"), g2.from(big_i32(k)));
        let (f, f2) = (f.clone(), f2.clone());
        Box::new(move || {
            let mut o = String::new();
            macro_rules! both {
                ($bad:expr, $good:expr) => {{
                    t(&mut o, || ($bad).to_string());
                    t(&mut o, || ($good).to_string())
                }};
            }
            match n % 20 {
                0 => both!(&x + &z, &x + &y),
                1 => both!(x.clone() + &z, x.clone() + &y),
                2 => both!(&x + z.clone(), &x + y.clone()),
                3 => both!(&x - &z, &x - &y),
                4 => both!(&x * &z, &x * &y),
                5 => both!(&x / &z, &x / &y),
                6 => both!(&x ^ 3u32, &x ^ 2u32),
                7 => both!(&x ^ 1i32, &x ^ -1i32),
                8 => both!(2u32 / &x, 1u32 / &x),
                9 => both!(fe(&f, 1).sqrt(), (&fe(&f, 2) * &x).sgn0()),
                10 => both!(FromFactory::<&str>::from(&f, "0x"), FromFactory::<&str>::from(&f, "0x11")),
                11 => both!(&x2 + &z2, &x2 + &y2),
                12 => both!(&x2 + z2.clone(), &x2 + y2.clone()),
                13 => both!(&x2 - &z2, &x2 - &y2),
                14 => both!(&x2 * &z2, &x2 * &y2),
                15 => both!(&x2 / &z2, &x2 / &y2),
                16 => both!(&x2 ^ 3u32, &x2 ^ 2u32),
                17 => both!(&x2 ^ 1i32, &x2 ^ -1i32),
                18 => both!(2u32 / &x2, 1u32 / &x2),
                _ => both!(FromFactory::<&str>::from(&f2, "5"), FromFactory::<&str>::from(&f2, "5,6")),
            }
            o
        })
    })
}
fn big_i32(k: u64) -> i32 {
    k as i32
}
fn refused_points<K: Kind>() -> Make {
    let l = list(K::MODEL);
    let at = |k: usize| {
        let x = &l[k.min(l.len() - 1)];
        let c = Rc::new(x.build::<K>());
        let pts = Rc::new(x.points::<K>(&c));
        (c, pts)
    };
    let ((c, ps), (d, qs)) = (at(11), at(18));
    Box::new(move |n| {
        let k = n / 8;
        let (p, q, r) = (ps[k % ps.len()].clone(), ps[(k + 3) % ps.len()].clone(), qs[k % qs.len()].clone());
        let (c, d) = (c.clone(), d.clone());
        Box::new(move || {
            let mut o = String::new();
            let (s, w) = (c.new_scalar(big(k as i64 + 2)), K::s_new(big(k as i64 + 2), &(d.get_order() * 1009u32)));
            let mut both = |bad: &mut dyn FnMut() -> K::P, good: &mut dyn FnMut() -> K::P| {
                t(&mut o, || hexs(&bad().encode(true)));
                t(&mut o, || hexs(&good().encode(false)));
            };
            match n % 8 {
                0 => both(&mut || K::add(&p, &r), &mut || K::add(&p, &q)),
                1 => both(&mut || K::bin('+', &p, &r, 3), &mut || K::bin('+', &p, &q, 3)),
                2 => both(&mut || K::sub(&p, &r), &mut || K::sub(&p, &q)),
                3 => both(&mut || K::bin('-', &r, &p, 1), &mut || K::bin('-', &q, &p, 1)),
                4 => both(&mut || K::mul(&p, &w), &mut || K::mul(&p, &s)),
                5 => both(&mut || K::mul_f(&p, &w, 3), &mut || K::mul_f(&p, &s, 3)),
                6 => {
                    let f = c.get_field();
                    both(&mut || c.new_point(fe(&f, 2), fe(&f, 3)), &mut || c.get_generator())
                }
                _ => both(
                    &mut || c.decode(&[9, 9, 9]).unwrap_or_else(|_| c.identity()),
                    &mut || c.decode(&p.encode(false)).unwrap(),
                ),
            }
            o
        })
    })
}
fn refused_scalars<K: Kind>() -> Make {
    Box::new(|n| {
        let (r, u) = (BigUint::from(65537u32), BigUint::from(65539u32));
        let k = (n / 6) as i64 + 2;
        let (a, b, c) = (K::s_new(big(k), &r), K::s_new(big(7), &r), K::s_new(big(k), &u));
        Box::new(move || {
            let mut o = String::new();
            let op = ['+', '-', '*', '/'][n % 4];
            if n % 6 == 5 {
                t(&mut o, || K::s_inv_of(2, &a).to_string());
                t(&mut o, || K::s_inv(&a).to_string());
            } else {
                t(&mut o, || K::s_bin(op, &a, &c, n % 4).to_string());
                t(&mut o, || K::s_bin(op, &a, &b, n % 4).to_string());
            }
            o
        })
    })
}
/// Constructors of maps, with parameters that fit and with others.
fn refused_maps() -> Make {
    let (w, m) = (list(Model::W), list(Model::M));
    Box::new(move |n| {
        let (x, y) = (&w[(n / 3) % w.len()], &m[(n / 3) % m.len()]);
        Box::new(move || {
            let mut o = String::new();
            for z in 0..5 {
                match n % 3 {
                    0 => t(&mut o, || {
                        let c = x.build::<W>();
                        let f = c.get_field();
                        hexs(&weierstrass::SSWU::new(c, fe(&f, z)).map(&fe(&f, 3)).encode(true))
                    }),
                    1 => t(&mut o, || {
                        let c = x.build::<W>();
                        let f = c.get_field();
                        hexs(&weierstrass::SVDW::new(c, fe(&f, z)).map(&fe(&f, 3)).encode(true))
                    }),
                    _ => t(&mut o, || {
                        let c = y.build::<M>();
                        let f = c.get_field();
                        hexs(&montgomery::Ell2::new(c, fe(&f, z)).map(&fe(&f, 3)).encode(true))
                    }),
                }
            }
            o
        })
    })
}

pub static KINDS: &[(&str, fn() -> Make)] = &[
    ("fields 3 mod 4, roots", || {
        Box::new(|n| {
            let f = field_of(prime(n, 3, 4));
            Box::new(move || ans(|| root(&f.elt(big(-2)))))
        })
    }),
    ("fields 5 mod 8, roots", || {
        Box::new(|n| {
            let f = field_of(prime(n, 5, 8));
            Box::new(move || ans(|| root(&f.elt(big(-2)))))
        })
    }),
    ("fields, arithmetic", || {
        Box::new(|n| {
            let f = field_of(prime(n, 1, 2));
            Box::new(move || ans(|| format!("{},{},{}", 1u32 / &fe(&f, 5), fe(&f, 5) / fe(&f, 3), &fe(&f, 5) ^ 77u32)))
        })
    }),
    ("fields, octets", || {
        let wide = nt::big_primes(|_, _, _| true);
        Box::new(move |n| {
            // the lengths change all the time
            let f = if n.is_multiple_of(2) { field_of(prime(n, 1, 2)) } else { Fp::new(nt::ubig(&wide[n % wide.len()].p)) };
            Box::new(move || ans(|| format!("{},{},{}", f.size_bytes(), hexs(&f.elt(big(-1)).to_bytes_be()), f.from_bytes_le(&[255; 9]).unwrap())))
        })
    }),
    ("fields, squares", || {
        Box::new(|n| {
            let f = field_of(prime(n, 1, 2));
            Box::new(move || ans(|| (2..6).map(|k| fe(&f, k).is_square().to_string()).collect()))
        })
    }),
    ("fields, equality", || {
        let g = field_of(10007);
        Box::new(move |n| {
            let (f, g) = (field_of(prime(n, 1, 2)), g.clone());
            Box::new(move || {
                let mut o = ans(|| format!("{}{}{f}", f == g, fe(&f, 5) == fe(&g, 5)));
                t(&mut o, || (fe(&f, 5) + fe(&g, 5)).to_string());
                o
            })
        })
    }),
    ("quadratic fields", || {
        Box::new(|n| {
            let f = Fp2::new(BigUint::from(prime(n, 3, 4)));
            let x = f.from("1,2");
            Box::new(move || {
                ans(|| {
                    let s = &x * &x;
                    let r = s.sqrt();
                    format!("{},{r},{},{}", &r * &r == s, 1u32 / &x, hexs(&x.to_bytes_be()))
                })
            })
        })
    }),
    ("elements, roots 3 mod 4", || elements(65539, |_, x, _| root(x))),
    ("elements, roots 5 mod 8", || elements(65557, |_, x, _| root(x))),
    ("elements, inverses", || elements(65539, |_, x, _| (1u32 / x).to_string())),
    ("elements, powers", || elements(65539, |_, x, n| format!("{},{}", x ^ 77u32, x ^ &big(-(n as i64))))),
    ("exponents", || elements(65539, |f, _, n| format!("{},{}", &fe(f, 5) ^ n as u32, &fe(f, 5) ^ &(BigUint::from(1u32) << n)))),
    ("elements, products", || elements(65539, |f, x, _| format!("{},{},{}", x * x, x * fe(f, 7), x / fe(f, 7)))),
    ("elements, sums", || elements(65539, |f, x, _| format!("{},{},{},{}", x + x, x - fe(f, 7), -x, x == &fe(f, 7)))),
    ("elements, squares", || elements(10007, |_, x, _| format!("{}{}{}{}", x.is_square(), x.sgn0(), x.is_zero(), x.is_one()))),
    ("elements, octets", || {
        elements(65539, |f, x, _| {
            let b = x.to_bytes_be();
            format!("{}{}", hexs(&b), f.from_bytes_le(&b).unwrap())
        })
    }),
    ("numerals", || {
        let f = field_of(10007);
        Box::new(move |n| {
            let f = f.clone();
            let s = match n % 6 {
                0 => format!("{n}"),
                1 => format!("0x{n:x}"),
                2 => format!("-0b{n:b}"),
                3 => format!("0o{n:o}"),
                4 => format!("zz{n}"),
                _ => format!("-{n}"),
            };
            Box::new(move || ans(|| FromFactory::<&str>::from(&f, s.as_str()).to_string()))
        })
    }),
    ("octets read", || {
        let f = field_of(10007);
        Box::new(move |n| {
            let f = f.clone();
            let b: Vec<u8> = (0..n % 37).map(|i| (i * n + n / 37) as u8).collect();
            Box::new(move || ans(|| format!("{},{}", f.from_bytes_be(&b).unwrap(), f.from_bytes_le(&b).unwrap())))
        })
    }),
    ("quadratic elements, roots", || elements2(1019, |_, x| (x * x).sqrt().to_string())),
    ("quadratic elements, inverses", || elements2(1019, |_, x| (1u32 / x).to_string())),
    ("quadratic elements, products", || elements2(1019, |f, x| format!("{},{},{},{}", x * x, x + x, x * f.from("3,4"), x ^ 5u32))),
    ("quadratic elements, octets and squares", || {
        elements2(1019, |f, x| {
            let b = x.to_bytes_le();
            format!("{},{},{}{}", hexs(&b), f.from_bytes_be(&b).map(|y| y.to_string()).unwrap_or("Err".into()), x.is_square(), x.sgn0())
        })
    }),
    ("W curves", curves::<W>),
    ("E curves", curves::<E>),
    ("M curves", curves::<M>),
    ("W curves, decoding", decoders::<W>),
    ("E curves, decoding", decoders::<E>),
    ("M curves, decoding", decoders::<M>),
    ("W strings", strings::<W>),
    ("E strings", strings::<E>),
    ("M strings", strings::<M>),
    ("W points", points::<W>),
    ("E points", points::<E>),
    ("M points", points::<M>),
    ("W new points", new_points::<W>),
    ("E new points", new_points::<E>),
    ("M new points", new_points::<M>),
    ("W multiples", multiples::<W>),
    ("E multiples", multiples::<E>),
    ("M multiples", multiples::<M>),
    ("W orders", orders::<W>),
    ("E orders", orders::<E>),
    ("M orders", orders::<M>),
    ("W scalars", scalars::<W>),
    ("E scalars", scalars::<E>),
    ("M scalars", scalars::<M>),
    ("refused element operations", refused_elements),
    ("W refused operations", refused_points::<W>),
    ("E refused operations", refused_points::<E>),
    ("M refused operations", refused_points::<M>),
    ("W refused scalar operations", refused_scalars::<W>),
    ("E refused scalar operations", refused_scalars::<E>),
    ("M refused scalar operations", refused_scalars::<M>),
    ("accepted and refused maps", refused_maps),
    ("SSWU maps", || {
        let ok: Vec<(&Toy, u64)> = list(Model::W).iter().filter(|x| x.rf.a != 0 && x.rf.b != 0).filter_map(|x| (2..x.p).find(|z| sswu_ok(&x.rf, z)).map(|z| (x, z))).collect();
        Box::new(move |n| {
            let (x, z) = ok[n % ok.len()];
            let c = x.build::<W>();
            let f = c.get_field();
            let m = weierstrass::SSWU::new(c, fe(&f, z));
            Box::new(move || ans(|| (0..4).map(|u| hexs(&m.map(&fe(&f, u)).encode(false))).collect()))
        })
    }),
    ("SVDW maps", || {
        let ok: Vec<(&Toy, u64)> = list(Model::W).iter().filter_map(|x| (1..x.p).find(|z| svdw_ok(&x.rf, z)).map(|z| (x, z))).collect();
        Box::new(move |n| {
            let (x, z) = ok[n % ok.len()];
            let c = x.build::<W>();
            let f = c.get_field();
            let m = weierstrass::SVDW::new(c, fe(&f, z));
            Box::new(move || ans(|| (0..4).map(|u| hexs(&m.map(&fe(&f, u)).encode(false))).collect()))
        })
    }),
    ("Elligator 2 maps", || {
        let l: Vec<&Toy> = list(Model::M).iter().filter(|x| x.rf.a != 0).collect();
        Box::new(move |n| {
            let x = l[n % l.len()];
            let z = (2..x.p).find(|z| !nt::is_qr(&big(*z as i64), &big(x.p as i64))).unwrap();
            let c = x.build::<M>();
            let f = c.get_field();
            let m = montgomery::Ell2::new(c, fe(&f, z));
            Box::new(move || ans(|| (0..4).map(|u| hexs(&m.map(&fe(&f, u)).encode(false))).collect()))
        })
    }),
    ("inputs of SSWU", || {
        let ts = toys_once();
        let c = ts.w[ts.sswu.0 as usize].build::<W>();
        let f = c.get_field();
        let m = Rc::new(weierstrass::SSWU::new(c, fe(&f, ts.sswu.1)));
        Box::new(move |n| {
            let (m, u) = (m.clone(), fe(&f, n as u64));
            Box::new(move || ans(|| hexs(&m.map(&u).encode(false))))
        })
    }),
    ("inputs of SVDW", || {
        let ts = toys_once();
        let c = ts.w[0].build::<W>();
        let f = c.get_field();
        let m = Rc::new(weierstrass::SVDW::new(c, fe(&f, ts.svdw)));
        Box::new(move |n| {
            let (m, u) = (m.clone(), fe(&f, n as u64));
            Box::new(move || ans(|| hexs(&m.map(&u).encode(false))))
        })
    }),
    ("inputs of Elligator 2", || {
        let ts = toys_once();
        let c = ts.m[0].build::<M>();
        let f = c.get_field();
        let m = Rc::new(montgomery::Ell2::new(c, fe(&f, ts.ell2)));
        Box::new(move |n| {
            let (m, u) = (m.clone(), fe(&f, n as u64));
            Box::new(move || ans(|| hexs(&m.map(&u).encode(false))))
        })
    }),
    ("points through the 25519 maps", || {
        let m = Rc::new(instances::edwards25519_to_curve25519());
        let (e, c) = (m.domain(), m.codomain());
        let (ge, gc) = (e.get_generator(), c.get_generator());
        Box::new(move |n| {
            let q = E::mul(&ge, &e.new_scalar(big(n as i64 % 20)));
            let r = M::mul(&gc, &c.new_scalar(big(n as i64 % 20)));
            let m = m.clone();
            Box::new(move || ans(|| if n.is_multiple_of(2) { hexs(&m.push(q.clone()).encode(true)) } else { hexs(&m.pull(r.clone()).encode(true)) }))
        })
    }),
    ("points through the 3-isogeny", || {
        let m = Rc::new(instances::get_isogeny_secp256k1());
        let e = m.domain();
        let g = e.get_generator();
        Box::new(move |n| {
            let q = W::mul(&g, &e.new_scalar(big(n as i64 % 40)));
            let m = m.clone();
            Box::new(move || ans(|| hexs(&m.push(q.clone()).encode(true))))
        })
    }),
    ("named instances", || {
        fn one<K: Kind>(name: &'static str) -> Ask {
            Box::new(move || {
                ans(|| match K::named(name) {
                    Some(c) => format!("{},{},{}", hexs(&c.get_generator().encode(true)), c.get_order(), c.get_field().size_bytes()),
                    None => "-".into(),
                })
            })
        }
        Box::new(|n| {
            let (w, e, m) = (crate::data::WEIERSTRASS, crate::data::EDWARDS, crate::data::MONTGOMERY);
            let i = n % (w.len() + e.len() + m.len());
            if i < w.len() {
                one::<W>(w[i][0])
            } else if i < w.len() + e.len() {
                one::<E>(e[i - w.len()][0])
            } else {
                one::<M>(m[i - w.len() - e.len()][0])
            }
        })
    }),
    ("Elligator 2 on Edwards curves", || {
        let r = instances::edwards25519_to_curve25519();
        let e = r.domain();
        let z = e.get_field().elt(big(2));
        let f = e.get_field();
        let m = Rc::new(edwards::Ell2::new(e, z, Some(Box::new(r))));
        Box::new(move |n| {
            let (m, u) = (m.clone(), f.elt(big(n as i64 % 30)));
            Box::new(move || ans(|| hexs(&m.map(&u).encode(true))))
        })
    }),
];

/// All kinds: the crowds of this file, and the alike operands.
pub fn kinds() -> &'static Vec<(&'static str, fn() -> Make)> {
    static K: OnceLock<Vec<(&'static str, fn() -> Make)>> = OnceLock::new();
    K.get_or_init(|| KINDS.iter().chain(crate::p_alike::KINDS).copied().collect())
}

/// Answers of things in processes that do nothing else, as hashes with the first characters.
struct Base(*mut u8, usize);
const SLOT: usize = 256;
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
fn digest(s: &str) -> u64 {
    crate::engine::hash(&s)
}
impl Base {
    fn new(n: usize) -> Base {
        let m = unsafe { mmap(std::ptr::null_mut(), n * SLOT, 3, 0x21, -1, 0) };
        assert!(m as isize != -1, "mmap");
        Base(m, n)
    }
    fn put(&self, i: usize, s: &str) {
        let mut cut = s.to_string();
        cut.truncate(cut.floor_char_boundary(SLOT - 12));
        unsafe {
            let q = self.0.add(i * SLOT);
            (q as *mut u64).write(digest(s));
            (q.add(8) as *mut u16).write(cut.len() as u16);
            std::ptr::copy_nonoverlapping(cut.as_ptr(), q.add(10), cut.len());
        }
    }
    fn get(&self, i: usize) -> (u64, String) {
        unsafe {
            let q = self.0.add(i * SLOT);
            let n = (q.add(8) as *const u16).read() as usize;
            ((q as *const u64).read(), String::from_utf8_lossy(std::slice::from_raw_parts(q.add(10), n)).into_owned())
        }
    }
    /// Fills in the answers of the given things, each one in a snapshot of this process.
    fn fill(&self, things: &[(usize, usize)]) -> Result<(), String> {
        assert!(things.len() <= self.1);
        for (i, &(k, n)) in things.iter().enumerate() {
            let pid = unsafe { fork() };
            assert!(pid >= 0, "fork");
            if pid == 0 {
                unsafe { alarm(60) };
                let a = std::panic::catch_unwind(|| (kinds()[k].1)()(n)()).unwrap_or("cannot be built".into());
                self.put(i, &a);
                unsafe { _exit(0) };
            }
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0) };
            if st != 0 {
                return Err(format!("{} {n}: a process that does nothing else ends with status {st}", kinds()[k].0));
            }
        }
        Ok(())
    }
}

/// Values go from one thread to another; only one of the threads runs at a time.
struct Carried<T>(T);
unsafe impl<T> Send for Carried<T> {}
impl<T> Carried<T> {
    fn take(self) -> T {
        self.0
    }
}
type Job = Carried<Box<dyn FnOnce() -> String>>;
/// A thread that runs what it is given, while the one that gives waits.
pub struct Helper(std::sync::mpsc::Sender<Job>, std::sync::mpsc::Receiver<String>);
impl Helper {
    pub fn new() -> Helper {
        let (tx, jobs) = std::sync::mpsc::channel::<Job>();
        let (answers, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            hist::QUIET.with(|q| q.set(true));
            for j in jobs {
                if answers.send(j.take()()).is_err() {
                    return;
                }
            }
        });
        Helper(tx, rx)
    }
    fn run(&self, f: Box<dyn FnOnce() -> String>) -> String {
        self.0.send(Carried(f)).expect("helper");
        self.1.recv().unwrap_or("the thread ended".into())
    }
}
/// Runs a closure in a new thread, and waits for the end of the thread.
pub fn in_new_thread<T: 'static>(f: impl FnOnce() -> T) -> T {
    let c = Carried(f);
    std::thread::scope(|s| {
        let h = s.spawn(move || {
            hist::QUIET.with(|q| q.set(true));
            Carried(c.take()())
        });
        h.join().expect("thread").take()
    })
}
/// Asks a thing in this thread, in one of two others, or in a new one.
fn elsewhere(hs: &[Helper; 2], i: usize, a: Ask) -> (Ask, String) {
    let back = std::sync::Arc::new(std::sync::Mutex::new(None));
    let b = Carried(back.clone());
    let f = move || {
        let b = b;
        let s = a();
        *b.0.lock().unwrap() = Some(Carried(a));
        s
    };
    let s = match i % 4 {
        0 => f(),
        1 | 2 => hs[i % 4 - 1].run(Box::new(f)),
        _ => in_new_thread(f),
    };
    let a = back.lock().unwrap().take().expect("thing").take();
    (a, s)
}

struct Run<'a> {
    base: &'a Base,
    things: &'a [(usize, usize)],
    last: Vec<usize>,
    asked: u64,
    bad: Vec<String>,
}
impl Run<'_> {
    fn check(&mut self, i: usize, got: String) {
        self.asked += 1;
        if self.last.len() == 6 {
            self.last.remove(0);
        }
        self.last.push(i);
        let (h, text) = self.base.get(i);
        if digest(&got) != h && self.bad.len() < 3 {
            let names: Vec<String> = self.last.iter().map(|&j| format!("{} {}", kinds()[self.things[j].0].0, self.things[j].1)).collect();
            self.bad.push(format!("answer {} of this history is {:.160}, in a fresh process {:.160}; the last questions were [{}]", self.asked, got, text, names.join("; ")));
        }
    }
}

/// A sequence in which every word of length `l` over 0..k occurs (and of every shorter length).
fn de_bruijn(k: usize, l: usize, f: &mut impl FnMut(usize)) {
    // Lyndon words in lexicographic order, those whose length divides l
    let mut w: Vec<usize> = vec![0];
    let mut first: Vec<usize> = vec![];
    loop {
        if l.is_multiple_of(w.len()) {
            for &x in &w {
                if first.len() < l {
                    first.push(x);
                }
                f(x);
            }
        }
        let n = w.len();
        while w.len() < l {
            w.push(w[w.len() - n]);
        }
        while w.last() == Some(&(k - 1)) {
            w.pop();
        }
        match w.last_mut() {
            Some(x) => *x += 1,
            None => break,
        }
    }
    // around the end
    first.iter().take(l - 1).for_each(|&x| f(x));
}

/// Computes the reference data that the kinds use, once.
pub fn ready() {
    toys_once();
    prime(0, 1, 2);
    for m in [Model::W, Model::E, Model::M] {
        list(m);
    }
}

/// The processes of the long histories: `mode` is keep, drop, threads, words or mixed; prints what it found.
pub fn worker(args: &[String]) {
    hist::install_quiet_hook();
    hist::QUIET.with(|q| q.set(true));
    let num = |i: usize| args[i].parse::<usize>().unwrap();
    let (mode, kind) = (args[0].as_str(), num(1));
    // reference data is ready before the first snapshot
    toys_once();
    prime(0, 1, 2);
    let name = kinds()[kind].0;
    let small = |m, needs: bool| (mode == "mixed" || needs).then(|| list(m).len());
    small(Model::W, name.starts_with("W ") || name.ends_with("maps"));
    small(Model::E, name.starts_with("E "));
    small(Model::M, name.starts_with("M ") || name.ends_with("maps"));
    let things: Vec<(usize, usize)> = match mode {
        "mixed" => (0..if num(3) > 2 { KINDS.len() } else { kinds().len() }).flat_map(|k| (0..num(2)).map(move |n| (k, n))).collect(),
        _ => (0..num(2)).map(|n| (kind, n)).collect(),
    };
    let base = Base::new(things.len());
    if let Err(e) = base.fill(&things) {
        println!("S\t1\t1\nV\tbase\t{e}");
        return;
    }
    let mut run = Run { base: &base, things: &things, last: vec![], asked: 0, bad: vec![] };
    let n = things.len();
    let make: Vec<Option<Make>> = (0..kinds().len()).map(|k| things.iter().any(|t| t.0 == k).then(|| (kinds()[k].1)())).collect();
    let build = |i: usize| make[things[i].0].as_ref().unwrap()(things[i].1);
    match mode {
        "words" | "mixed" => {
            let v: Vec<Ask> = (0..n).map(build).collect();
            de_bruijn(n, num(3), &mut |i| {
                if run.bad.is_empty() {
                    run.check(i, v[i]())
                }
            });
        }
        "threads" => {
            let hs = [Helper::new(), Helper::new()];
            let mut v: std::collections::VecDeque<(usize, Ask)> = Default::default();
            for i in 0..n {
                if !run.bad.is_empty() {
                    break;
                }
                v.push_back((i, build(i)));
                for k in [0, 1, v.len() / 2, v.len() - 1] {
                    for w in 0..4 {
                        // every order of the threads comes up
                        let Some((j, a)) = v.remove(k.min(v.len() - 1)) else { break };
                        let (a, s) = elsewhere(&hs, [i, i + 1, 3 * i + 2, i / 4 + 3][w] + w * (1 + i % 3), a);
                        run.check(j, s);
                        v.insert(k.min(v.len()), (j, a));
                    }
                }
                if v.len() > 12 {
                    let (_, a) = v.pop_front().unwrap();
                    match i % 3 {
                        0 => drop(a),
                        1 => drop(hs[i % 2].run(Box::new(move || {
                            drop(a);
                            String::new()
                        }))),
                        _ => in_new_thread(move || drop(a)),
                    }
                }
            }
        }
        _ => {
            let keep = mode == "keep";
            let all = num(3);
            let mut v: Vec<Ask> = vec![];
            let ask = |v: &Vec<Ask>, i: usize| if keep { v[i]() } else { build(i)() };
            for i in 0..n {
                if !run.bad.is_empty() {
                    break;
                }
                if keep {
                    v.push(build(i));
                }
                let a = ask(&v, i);
                run.check(i, a);
                // all earlier ones, and later those at distances around powers of two
                let mut back: Vec<usize> = if i < all { (0..=i).collect() } else { vec![0, 1, i / 2] };
                if i >= all {
                    let mut d = 1;
                    while d <= i + 1 {
                        back.extend([d - 1, d, d + 1].iter().filter(|x| **x <= i).map(|x| i - x));
                        d *= 2;
                    }
                }
                for j in back {
                    let a = ask(&v, j);
                    run.check(j, a);
                }
            }
            // and once more from the end
            for i in (0..n).rev() {
                if !run.bad.is_empty() {
                    break;
                }
                let a = if keep { v[i]() } else { build(i)() };
                run.check(i, a);
            }
        }
    }
    println!("S\t{}\t{}", run.asked, run.asked);
    for b in &run.bad {
        println!("V\t{}\t{}", args.join("-"), b.replace(['\n', '\t'], " "));
    }
}

/// Jobs for the long histories: labels, and the arguments of their processes.
pub fn jobs(quick: bool) -> Vec<(String, Vec<String>)> {
    let mut v = vec![];
    let mut add = |name: &str, a: [usize; 3]| {
        let label = format!("{name}/{}", if name == "mixed" { "every kind" } else { kinds()[a[0]].0 });
        let mut args = vec!["C26-long".to_string(), name.to_string()];
        args.extend(a.iter().map(|x| x.to_string()));
        v.push((label, args));
    };
    add("mixed", [0, 3, if quick { 2 } else { 3 }]);
    for k in 0..kinds().len() {
        let (n, all) = if quick { (300, 70) } else { (2200, 300) };
        if k >= KINDS.len() {
            // alike operands: what matters is which ones follow each other
            add("words", [k, if quick { 24 } else { 40 }, 3]);
            if !quick {
                add("words", [k, 12, 4]);
                add("keep", [k, 120, 60]);
                add("drop", [k, 60, 30]);
                add("threads", [k, 60, 0]);
            }
            continue;
        }
        add("keep", [k, n, all]);
        add("drop", [k, n, all]);
        add("threads", [k, if quick { 160 } else { 1500 }, 0]);
        add("words", [k, if quick { 24 } else { 50 }, 3]);
        if !quick {
            add("words", [k, 20, 4]);
        }
    }
    v
}
