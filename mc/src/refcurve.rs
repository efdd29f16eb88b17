//! Reference model of the three curve shapes: textbook affine formulas over GF(p), the set of points found by
//! trying every pair of coordinates (toy curves), and the standard octet strings.

use crate::api::{Elt, Field, Kind, Model, Text};
use crate::nt::{self, big};
use num_bigint::BigInt;
use num_traits::One;
use redox_ecc::ellipticcurve::{EllipticCurve, Encode};
use std::collections::HashMap;
use std::fmt::{Debug, Display};
use std::hash::Hash;

/// Arithmetic of GF(p).
pub trait Ar: Clone {
    type E: Clone + Eq + Hash + Debug + Display;
    fn c(&self, n: i64) -> Self::E;
    fn add(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn sub(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn mul(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn inv(&self, a: &Self::E) -> Self::E;
    fn is_sq(&self, a: &Self::E) -> bool;
    fn sqrt(&self, a: &Self::E) -> Self::E;
    fn odd(&self, a: &Self::E) -> bool;
    fn to_big(&self, a: &Self::E) -> BigInt;
    fn of_big(&self, a: &BigInt) -> Self::E;
    fn p(&self) -> BigInt;
    fn neg(&self, a: &Self::E) -> Self::E {
        self.sub(&self.c(0), a)
    }
    fn div(&self, a: &Self::E, b: &Self::E) -> Self::E {
        self.mul(a, &self.inv(b))
    }
    fn sq(&self, a: &Self::E) -> Self::E {
        self.mul(a, a)
    }
    fn z(&self, a: &Self::E) -> bool {
        *a == self.c(0)
    }
}

#[derive(Clone)]
pub struct Z64(pub u64);
impl Ar for Z64 {
    type E = u64;
    fn c(&self, n: i64) -> u64 {
        n.rem_euclid(self.0 as i64) as u64
    }
    fn add(&self, a: &u64, b: &u64) -> u64 {
        (a + b) % self.0
    }
    fn sub(&self, a: &u64, b: &u64) -> u64 {
        (a + self.0 - b) % self.0
    }
    fn mul(&self, a: &u64, b: &u64) -> u64 {
        nt::mulm(*a, *b, self.0)
    }
    fn inv(&self, a: &u64) -> u64 {
        nt::invm(*a, self.0)
    }
    fn is_sq(&self, a: &u64) -> bool {
        *a == 0 || nt::powm(*a, (self.0 - 1) / 2, self.0) == 1
    }
    fn sqrt(&self, a: &u64) -> u64 {
        (0..self.0).find(|y| nt::mulm(*y, *y, self.0) == *a).unwrap()
    }
    fn odd(&self, a: &u64) -> bool {
        a & 1 == 1
    }
    fn to_big(&self, a: &u64) -> BigInt {
        BigInt::from(*a)
    }
    fn of_big(&self, a: &BigInt) -> u64 {
        nt::low(&nt::red(a, &BigInt::from(self.0)))
    }
    fn p(&self) -> BigInt {
        BigInt::from(self.0)
    }
}

#[derive(Clone)]
pub struct ZB(pub BigInt);
impl Ar for ZB {
    type E = BigInt;
    fn c(&self, n: i64) -> BigInt {
        nt::red(&big(n), &self.0)
    }
    fn add(&self, a: &BigInt, b: &BigInt) -> BigInt {
        (a + b) % &self.0
    }
    fn sub(&self, a: &BigInt, b: &BigInt) -> BigInt {
        nt::red(&(a - b), &self.0)
    }
    fn mul(&self, a: &BigInt, b: &BigInt) -> BigInt {
        a * b % &self.0
    }
    fn inv(&self, a: &BigInt) -> BigInt {
        nt::inv(a, &self.0)
    }
    fn is_sq(&self, a: &BigInt) -> bool {
        nt::is_qr(a, &self.0)
    }
    fn sqrt(&self, a: &BigInt) -> BigInt {
        nt::sqrt(a, &self.0)
    }
    fn odd(&self, a: &BigInt) -> bool {
        a.bit(0)
    }
    fn to_big(&self, a: &BigInt) -> BigInt {
        a.clone()
    }
    fn of_big(&self, a: &BigInt) -> BigInt {
        nt::red(a, &self.0)
    }
    fn p(&self) -> BigInt {
        self.0.clone()
    }
}

/// None is the point at infinity (never used in the Edwards model).
pub type Pt<E> = Option<(E, E)>;

/// W: y^2 = x^3+ax+b. E: ax^2+y^2 = 1+bx^2y^2. M: by^2 = x^3+ax^2+x.
#[derive(Clone)]
pub struct Ref<A: Ar> {
    pub ar: A,
    pub model: Model,
    pub a: A::E,
    pub b: A::E,
}

impl<A: Ar> Ref<A> {
    pub fn id(&self) -> Pt<A::E> {
        match self.model {
            Model::E => Some((self.ar.c(0), self.ar.c(1))),
            _ => None,
        }
    }
    pub fn on(&self, x: &A::E, y: &A::E) -> bool {
        let k = &self.ar;
        let (x2, y2) = (k.sq(x), k.sq(y));
        match self.model {
            Model::W => y2 == self.rhs(x),
            Model::M => k.mul(&self.b, &y2) == self.rhs(x),
            Model::E => k.add(&k.mul(&self.a, &x2), &y2) == k.add(&k.c(1), &k.mul(&self.b, &k.mul(&x2, &y2))),
        }
    }
    /// W: x^3+ax+b. M: x^3+ax^2+x.
    pub fn rhs(&self, x: &A::E) -> A::E {
        let k = &self.ar;
        match self.model {
            Model::W => k.add(&k.mul(x, &k.add(&k.sq(x), &self.a)), &self.b),
            Model::M => k.mul(x, &k.add(&k.mul(x, &k.add(x, &self.a)), &k.c(1))),
            Model::E => unreachable!(),
        }
    }
    pub fn neg(&self, p: &Pt<A::E>) -> Pt<A::E> {
        let k = &self.ar;
        p.as_ref().map(|(x, y)| match self.model {
            Model::E => (k.neg(x), y.clone()),
            _ => (x.clone(), k.neg(y)),
        })
    }
    pub fn add(&self, p: &Pt<A::E>, q: &Pt<A::E>) -> Pt<A::E> {
        let k = &self.ar;
        let ((x1, y1), (x2, y2)) = match (p, q) {
            (None, _) => return q.clone(),
            (_, None) => return p.clone(),
            (Some(p), Some(q)) => (p, q),
        };
        match self.model {
            Model::E => {
                let (xx, yy) = (k.mul(x1, x2), k.mul(y1, y2));
                let t = k.mul(&self.b, &k.mul(&xx, &yy));
                let nx = k.add(&k.mul(x1, y2), &k.mul(y1, x2));
                let ny = k.sub(&yy, &k.mul(&self.a, &xx));
                let (dx, dy) = (k.add(&k.c(1), &t), k.sub(&k.c(1), &t));
                assert!(!k.z(&dx) && !k.z(&dy), "the edwards law is complete");
                Some((k.div(&nx, &dx), k.div(&ny, &dy)))
            }
            Model::W => {
                let l = if x1 == x2 {
                    if *y1 != *y2 || k.z(y1) {
                        return None;
                    }
                    k.div(&k.add(&k.mul(&k.c(3), &k.sq(x1)), &self.a), &k.add(y1, y1))
                } else {
                    k.div(&k.sub(y2, y1), &k.sub(x2, x1))
                };
                let x3 = k.sub(&k.sub(&k.sq(&l), x1), x2);
                let y3 = k.sub(&k.mul(&l, &k.sub(x1, &x3)), y1);
                Some((x3, y3))
            }
            Model::M => {
                let l = if x1 == x2 {
                    if *y1 != *y2 || k.z(y1) {
                        return None;
                    }
                    let n = k.add(&k.mul(&k.add(&k.mul(&k.c(3), x1), &k.add(&self.a, &self.a)), x1), &k.c(1));
                    k.div(&n, &k.mul(&k.add(&self.b, &self.b), y1))
                } else {
                    k.div(&k.sub(y2, y1), &k.sub(x2, x1))
                };
                let x3 = k.sub(&k.sub(&k.sub(&k.mul(&self.b, &k.sq(&l)), &self.a), x1), x2);
                let y3 = k.sub(&k.mul(&l, &k.sub(x1, &x3)), y1);
                Some((x3, y3))
            }
        }
    }
    pub fn mul(&self, n: &BigInt, p: &Pt<A::E>) -> Pt<A::E> {
        let (n, p) = if *n < big(0) { (-n, self.neg(p)) } else { (n.clone(), p.clone()) };
        let mut q = self.id();
        for i in (0..n.bits()).rev() {
            q = self.add(&q, &q);
            if n.bit(i) {
                q = self.add(&q, &p);
            }
        }
        q
    }
    /// A point with the given abscissa (ordinate for Edwards curves), if there is one.
    pub fn lift(&self, v: &A::E) -> Option<(A::E, A::E)> {
        let k = &self.ar;
        let out = match self.model {
            Model::W => {
                let t = self.rhs(v);
                if !k.is_sq(&t) {
                    return None;
                }
                (v.clone(), k.sqrt(&t))
            }
            Model::M => {
                let t = k.div(&self.rhs(v), &self.b);
                if !k.is_sq(&t) {
                    return None;
                }
                (v.clone(), k.sqrt(&t))
            }
            Model::E => {
                let y2 = k.sq(v);
                let den = k.sub(&k.mul(&self.b, &y2), &self.a);
                if k.z(&den) {
                    return None;
                }
                let t = k.div(&k.sub(&y2, &k.c(1)), &den);
                if !k.is_sq(&t) {
                    return None;
                }
                (k.sqrt(&t), v.clone())
            }
        };
        assert!(self.on(&out.0, &out.1));
        Some(out)
    }
    /// The standard octet string of a point.
    pub fn enc(&self, p: &Pt<A::E>, compress: bool) -> Vec<u8> {
        let k = &self.ar;
        let m = k.p();
        match self.model {
            Model::E => {
                let (x, y) = p.as_ref().unwrap();
                let len = (m.bits() as usize + 1).div_ceil(8);
                let mut v = nt::le_bytes(&k.to_big(y), len);
                if k.odd(x) {
                    v[len - 1] |= 0x80;
                }
                v
            }
            _ => match p {
                None => vec![0],
                Some((x, y)) => {
                    let len = nt::bytelen(&m);
                    let mut v = vec![if !compress { 4u8 } else if k.odd(y) { 3 } else { 2 }];
                    v.extend(nt::be_bytes(&k.to_big(x), len));
                    if !compress {
                        v.extend(nt::be_bytes(&k.to_big(y), len));
                    }
                    v
                }
            },
        }
    }
    pub fn elt(&self, f: &redox_ecc::primefield::Fp, v: &A::E) -> Elt {
        f.elt(self.ar.to_big(v))
    }
    /// The library's point for a reference point, built through `identity` and `new_point`.
    pub fn point<K: Kind>(&self, c: &K::C, p: &Pt<A::E>) -> K::P {
        match p {
            None => c.identity(),
            Some((x, y)) => {
                let f = c.get_field();
                c.new_point(self.elt(&f, x), self.elt(&f, y))
            }
        }
    }
}

/// A small curve with its whole group.
pub struct Toy {
    pub rf: Ref<Z64>,
    pub p: u64,
    pub s: u64,
    /// the first one is the identity
    pub pts: Vec<Pt<u64>>,
    pub idx: HashMap<Pt<u64>, usize>,
    pub addt: Vec<Vec<u16>>,
    pub neg: Vec<usize>,
    pub ord: Vec<u64>,
    pub r: u64,
    pub h: u64,
    pub gen: usize,
}

impl Toy {
    pub fn n(&self) -> usize {
        self.pts.len()
    }
    pub fn add(&self, i: usize, j: usize) -> usize {
        self.addt[i][j] as usize
    }
    pub fn sub(&self, i: usize, j: usize) -> usize {
        self.add(i, self.neg[j])
    }
    pub fn label(&self) -> String {
        match self.rf.model {
            Model::W => format!("W(p={},a={},b={})", self.p, self.rf.a, self.rf.b),
            Model::E => format!("E(p={},a={},d={})", self.p, self.rf.a, self.rf.b),
            Model::M => format!("M(p={},a={},b={},s={})", self.p, self.rf.a, self.rf.b, self.s),
        }
    }
    pub fn text(&self) -> Text {
        let (gx, gy) = self.pts[self.gen].unwrap_or((0, 1));
        Text {
            p: self.p.to_string(),
            a: self.rf.a.to_string(),
            b: self.rf.b.to_string(),
            s: self.s.to_string(),
            r: self.r.to_string(),
            h: self.h.to_string(),
            gx: gx.to_string(),
            gy: gy.to_string(),
        }
    }
    pub fn build<K: Kind>(&self) -> K::C {
        assert!(K::MODEL == self.rf.model);
        K::build(&self.text())
    }
    pub fn points<K: Kind>(&self, c: &K::C) -> Vec<K::P> {
        self.pts.iter().map(|p| self.rf.point::<K>(c, p)).collect()
    }
    /// Only the equation, without the group.
    pub fn bare(model: Model, p: u64, a: u64, b: u64, s: u64) -> Option<Toy> {
        let rf = Ref { ar: Z64(p), model, a, b };
        let nonsingular = match model {
            Model::W => !(4 * nt::powm(a, 3, p) + 27 * nt::powm(b, 2, p)).is_multiple_of(p),
            Model::E => a != 0 && b != 0 && a != b && rf.ar.is_sq(&a) && !rf.ar.is_sq(&b),
            Model::M => b != 0 && (a * a) % p != 4 % p,
        };
        if !nonsingular {
            return None;
        }
        let mut pts: Vec<Pt<u64>> = vec![];
        if model != Model::E {
            pts.push(None);
        }
        for x in 0..p {
            for y in 0..p {
                if rf.on(&x, &y) {
                    pts.push(Some((x, y)));
                }
            }
        }
        if model == Model::E {
            let i = pts.iter().position(|q| *q == Some((0, 1))).unwrap();
            pts.swap(0, i);
        }
        let n = pts.len() as u64;
        let mut r = 2;
        for q in nt::primes(3, n) {
            if n % q == 0 {
                r = q;
            }
        }
        let idx = pts.iter().cloned().enumerate().map(|(i, q)| (q, i)).collect();
        Some(Toy { rf, p, s, pts, idx, addt: vec![], neg: vec![], ord: vec![], r, h: n / r, gen: 0 })
    }
    pub fn new(model: Model, p: u64, a: u64, b: u64, s: u64) -> Option<Toy> {
        let mut t = Toy::bare(model, p, a, b, s)?;
        let n = t.n();
        t.neg = t.pts.iter().map(|q| t.idx[&t.rf.neg(q)]).collect();
        let mut tab = vec![vec![0u16; n]; n];
        for i in 0..n {
            for j in i..n {
                let k = t.idx[&t.rf.add(&t.pts[i], &t.pts[j])] as u16;
                tab[i][j] = k;
                tab[j][i] = k;
            }
        }
        t.addt = tab;
        t.ord = (0..n)
            .map(|i| {
                let (mut k, mut o) = (i, 1);
                while k != 0 {
                    k = t.add(k, i);
                    o += 1;
                }
                o
            })
            .collect();
        t.gen = (0..n).find(|&i| t.ord[i] == t.r).unwrap_or(0);
        Some(t)
    }
}

/// The values of s for which the addition formulas of the Montgomery model have no exception.
pub fn good_s(p: u64, a: u64, b: u64) -> Vec<u64> {
    let rf = Ref { ar: Z64(p), model: Model::M, a, b };
    let vals: Vec<u64> = (0..p).map(|x| rf.rhs(&x)).collect();
    (1..p).filter(|s| !vals.contains(&nt::mulm(b, nt::mulm(*s, *s, p), p))).collect()
}

/// Every supported curve of a model over GF(p), as (a, b, s).
pub fn universe(model: Model, p: u64) -> Vec<(u64, u64, u64)> {
    let mut v = vec![];
    for a in 0..p {
        for b in 0..p {
            match model {
                Model::W => {
                    if let Some(t) = Toy::bare(model, p, a, b, 0) {
                        if t.n() > 2 && nt::is_prime64(t.n() as u64) {
                            v.push((a, b, 0));
                        }
                    }
                }
                Model::E => {
                    if Toy::bare(model, p, a, b, 0).is_some() {
                        v.push((a, b, 0));
                    }
                }
                Model::M => {
                    if Toy::bare(model, p, a, b, 0).is_some() {
                        let s = good_s(p, a, b);
                        if p <= 7 {
                            v.extend(s.iter().map(|s| (a, b, *s)));
                        } else if let (Some(s0), Some(s1)) = (s.first(), s.last()) {
                            v.push((a, b, if (a + b) % 2 == 0 { *s0 } else { *s1 }));
                        }
                    }
                }
            }
        }
    }
    v
}
/// Jobs for every supported curve over the given primes; `keep` thins the curves of the larger fields.
pub fn toys(model: Model, primes: &[u64], keep: impl Fn(u64, usize) -> bool) -> Vec<(String, (u64, u64, u64, u64))> {
    let mut v = vec![];
    for &p in primes {
        for (i, (a, b, s)) in universe(model, p).into_iter().enumerate() {
            if keep(p, i) {
                let l = match model {
                    Model::W => format!("W(p={p},a={a},b={b})"),
                    Model::E => format!("E(p={p},a={a},d={b})"),
                    Model::M => format!("M(p={p},a={a},b={b},s={s})"),
                };
                v.push((l, (p, a, b, s)));
            }
        }
    }
    v
}
pub fn toy(model: Model, j: &(u64, u64, u64, u64)) -> Toy {
    Toy::new(model, j.0, j.1, j.2, j.3).unwrap()
}

/// A named curve with its published constants.
pub struct Named<K: Kind> {
    pub name: &'static str,
    pub rf: Ref<ZB>,
    pub r: BigInt,
    pub h: BigInt,
    pub g: Pt<BigInt>,
    pub c: K::C,
}

pub fn rows<K: Kind>() -> &'static [[&'static str; 8]] {
    match K::MODEL {
        Model::W => crate::data::WEIERSTRASS,
        Model::E => crate::data::EDWARDS,
        Model::M => crate::data::MONTGOMERY,
    }
}
pub fn named_jobs<K: Kind>() -> Vec<(String, usize)> {
    rows::<K>().iter().enumerate().map(|(i, r)| (r[0].to_string(), i)).collect()
}
/// Curves of known order over fields of many sizes (`curves.rs`), numbered from WIDE on; every `step`-th of them.
pub const WIDE: usize = 1000;
pub fn wide_rows<K: Kind>() -> &'static [(u32, [&'static str; 8])] {
    match K::MODEL {
        Model::W => crate::curves::W,
        Model::E => crate::curves::E,
        Model::M => crate::curves::M,
    }
}
pub fn wide_jobs<K: Kind>(step: usize) -> Vec<(String, usize)> {
    wide_rows::<K>().iter().enumerate().filter(|(i, _)| i % step == 0).map(|(i, r)| (format!("{}bits", r.0), WIDE + i)).collect()
}
fn wide_named<K: Kind>(i: usize) -> Named<K> {
    let v: Vec<BigInt> = wide_rows::<K>()[i].1.iter().map(|t| nt::hex(t)).collect();
    let rf = Ref { ar: ZB(v[0].clone()), model: K::MODEL, a: v[1].clone(), b: v[2].clone() };
    assert!(rf.on(&v[6], &v[7]));
    let d: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    let c = K::build(&Text { p: d[0].clone(), a: d[1].clone(), b: d[2].clone(), s: d[3].clone(), r: d[4].clone(), h: d[5].clone(), gx: d[6].clone(), gy: d[7].clone() });
    Named { name: "generated", rf, r: v[4].clone(), h: v[5].clone(), g: Some((v[6].clone(), v[7].clone())), c }
}
pub fn named<K: Kind>(i: usize) -> Named<K> {
    if i >= WIDE {
        return wide_named::<K>(i - WIDE);
    }
    let row = &rows::<K>()[i];
    let p = nt::dec(row[1]);
    let rf = Ref { ar: ZB(p.clone()), model: K::MODEL, a: nt::red(&nt::dec(row[2]), &p), b: nt::red(&nt::dec(row[3]), &p) };
    let g = if row[6].is_empty() { None } else { Some((nt::dec(row[6]), nt::dec(row[7]))) };
    if let Some((x, y)) = &g {
        assert!(rf.on(x, y));
    }
    Named { name: row[0], rf, r: nt::dec(row[4]), h: nt::dec(row[5]), g, c: K::named(row[0]).unwrap() }
}

impl<K: Kind> Named<K> {
    pub fn pt(&self, p: &Pt<BigInt>) -> K::P {
        self.rf.point::<K>(&self.c, p)
    }
    /// Points of the curve found from small abscissas (ordinates for Edwards curves), in order.
    pub fn lifted(&self, count: usize) -> Vec<Pt<BigInt>> {
        let mut v = vec![];
        let mut x = 0;
        while v.len() < count {
            if let Some(q) = self.rf.lift(&big(x)) {
                if !v.contains(&Some(q.clone())) {
                    v.push(Some(q));
                }
            }
            x += 1;
        }
        v
    }
    /// Points whose abscissa (ordinate for Edwards curves) has a special pattern: next to the modulus, its half, a
    /// power of two, or a byte boundary; the lowest word zero or all ones; only the words in the middle set.
    pub fn special(&self, count: usize) -> Vec<Pt<BigInt>> {
        let p = &self.rf.ar.0;
        let one = BigInt::one();
        let bits = p.bits();
        // the first one, and the step to the next of the same pattern
        let mut pat: Vec<(BigInt, BigInt)> = vec![(p - 1, -one.clone()), (&one << (8 * ((bits - 1) / 8)), -one.clone())];
        if bits > 66 {
            pat.push((&one << 64u32, &one << 64u32));
            pat.push(((&one << 64u32) - 1, &one << 64u32));
        }
        pat.push((p >> 1u32, one.clone()));
        if bits > 34 {
            pat.push((&one << 32u32, &one << 32u32));
        }
        if bits > 130 {
            pat.push((&one << (bits / 2), &one << (bits / 2)));
            pat.push((&one << 128u32, &one << 128u32));
            pat.push((((&one << 64u32) - 1) << 64u32, &one << 128u32));
        }
        pat.push((&one << (bits - 1), one.clone()));
        let mut v: Vec<Pt<BigInt>> = vec![];
        for (first, step) in pat.into_iter().take(count) {
            let mut x = first;
            for _ in 0..40 {
                if x.sign() == num_bigint::Sign::Minus || x >= *p {
                    break;
                }
                if let Some(q) = self.rf.lift(&x) {
                    v.push(Some(q));
                    break;
                }
                x += &step;
            }
        }
        v
    }
    /// A base point: the published generator, or the first lifted point.
    pub fn base(&self) -> Pt<BigInt> {
        match &self.g {
            Some(_) => self.g.clone(),
            None => {
                let q = self.lifted(3)[2].clone();
                self.rf.mul(&self.h, &q)
            }
        }
    }
    /// The rational torsion points of order dividing the cofactor (Edwards and Montgomery models).
    pub fn torsion(&self) -> Vec<Pt<BigInt>> {
        let mut v = vec![self.rf.id()];
        if self.rf.model == Model::W {
            return v;
        }
        for q in self.lifted(12) {
            let t = self.rf.mul(&self.r, &q);
            let mut s = t.clone();
            for _ in 0..8 {
                if !v.contains(&s) {
                    v.push(s.clone());
                }
                s = self.rf.add(&s, &t);
            }
        }
        assert!(big(v.len() as i64) == self.h, "all torsion points found");
        v
    }
    /// Identity, small multiples of the base point and their opposites, lifted points, torsion and mixed points.
    pub fn alphabet(&self, level: u32) -> Vec<Pt<BigInt>> {
        let rf = &self.rf;
        let g = self.base();
        let mut v = vec![rf.id()];
        let mut q = g.clone();
        for _ in 0..[3, 5, 8][level as usize] {
            v.push(q.clone());
            v.push(rf.neg(&q));
            q = rf.add(&q, &g);
        }
        let half: BigInt = (&self.r + 1) >> 1;
        v.push(rf.mul(&half, &g));
        if level > 0 {
            v.push(rf.mul(&(&half - 1), &g));
            v.push(rf.mul(&(BigInt::one() << 64u32), &g));
        }
        v.extend(self.lifted([3, 6, 12][level as usize]));
        v.extend(self.special([3, 6, 12][level as usize]));
        if rf.model != Model::W {
            let t = self.torsion();
            for x in &t {
                v.push(x.clone());
                v.push(rf.add(x, &g));
            }
        }
        let mut out: Vec<Pt<BigInt>> = vec![];
        for x in v {
            if !out.contains(&x) {
                out.push(x);
            }
        }
        out
    }
}

/// Is this library point the reference point? Judged by equality, in both directions and against a different
/// point (so that a degenerate value equal to everything is noticed), and by its octet string.
pub fn same<A: Ar, K: Kind>(rf: &Ref<A>, got: &K::P, want_pt: &K::P, other: &K::P, want: &Pt<A::E>) -> Result<(), String> {
    if !(got == want_pt && want_pt == got) {
        return Err(format!("got {}, not equal to the expected point {:?}", show(got), want));
    }
    if got == other || other == got {
        return Err(format!("got {}, which also equals another point than {:?}", show(got), want));
    }
    let e = got.encode(false);
    if e != rf.enc(want, false) {
        return Err(format!("got {} (encodes to {:02x?}), expected {:?}", show(got), e, want));
    }
    Ok(())
}
pub fn show<P: Display>(p: &P) -> String {
    p.to_string().replace('\n', " ").trim().to_string()
}
