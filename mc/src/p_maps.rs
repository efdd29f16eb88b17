//! C19, C20, C21: the maps to curves and their constructors.

use crate::api::*;
use crate::engine::{Ctx, L};
use crate::nt::{self, Prime};
use crate::p_field::{jobs, table, with_named_};
use crate::p_iso::{dyn_iso, dyn_map, iso_setting, map_setting};
use crate::refcurve::*;
use num_bigint::BigInt;
use redox_ecc::edwards;
use redox_ecc::ellipticcurve::{EllipticCurve, Encode, Isogeny, MapToCurve, RationalMap};
use redox_ecc::montgomery;
use redox_ecc::weierstrass;

type WC = weierstrass::Curve;
type MC = montgomery::Curve;
type EC = edwards::Curve;

// ---------------------------------------------------------------------------- the text of RFC 9380, section 6

fn signed<A: Ar>(k: &A, y2: &A::E, negative: bool) -> A::E {
    let y = k.sqrt(y2);
    if k.odd(&y) == negative {
        y
    } else {
        k.neg(&y)
    }
}
/// 6.6.2
fn ref_sswu<A: Ar>(e: &Ref<A>, z: &A::E, u: &A::E) -> Pt<A::E> {
    let k = &e.ar;
    let zu2 = k.mul(z, &k.sq(u));
    let tv1 = k.inv(&k.add(&k.sq(&zu2), &zu2));
    let x1 = if k.z(&tv1) {
        k.div(&e.b, &k.mul(z, &e.a))
    } else {
        k.mul(&k.div(&k.neg(&e.b), &e.a), &k.add(&k.c(1), &tv1))
    };
    let gx1 = e.rhs(&x1);
    let (x, g) = if k.is_sq(&gx1) {
        (x1, gx1)
    } else {
        let x2 = k.mul(&zu2, &x1);
        let g = e.rhs(&x2);
        (x2, g)
    };
    let y = signed(k, &g, k.odd(u));
    assert!(e.on(&x, &y));
    Some((x, y))
}
pub fn sswu_ok<A: Ar>(e: &Ref<A>, z: &A::E) -> bool {
    let k = &e.ar;
    !k.z(&e.a) && !k.z(&e.b) && !k.is_sq(z) && *z != k.c(-1) && k.is_sq(&e.rhs(&k.div(&e.b, &k.mul(z, &e.a))))
}
/// 6.6.1
fn ref_svdw<A: Ar>(e: &Ref<A>, z: &A::E, u: &A::E) -> Pt<A::E> {
    let k = &e.ar;
    let gz = e.rhs(z);
    let t = k.add(&k.mul(&k.c(3), &k.sq(z)), &k.mul(&k.c(4), &e.a));
    let tv1 = k.mul(&k.sq(u), &gz);
    let tv2 = k.add(&k.c(1), &tv1);
    let tv1 = k.sub(&k.c(1), &tv1);
    let tv3 = k.inv(&k.mul(&tv1, &tv2));
    let tv4 = signed(k, &k.neg(&k.mul(&gz, &t)), false);
    let tv5 = k.mul(&k.mul(&k.mul(u, &tv1), &tv3), &tv4);
    let tv6 = k.div(&k.neg(&k.mul(&k.c(4), &gz)), &t);
    let h = k.div(&k.neg(z), &k.c(2));
    let x3 = k.add(z, &k.mul(&tv6, &k.sq(&k.mul(&k.sq(&tv2), &tv3))));
    let x = [k.sub(&h, &tv5), k.add(&h, &tv5), x3].into_iter().find(|x| k.is_sq(&e.rhs(x))).expect("one candidate is good");
    let y = signed(k, &e.rhs(&x), k.odd(u));
    Some((x, y))
}
pub fn svdw_ok<A: Ar>(e: &Ref<A>, z: &A::E) -> bool {
    let k = &e.ar;
    let gz = e.rhs(z);
    if k.z(&gz) {
        return false;
    }
    let t = k.add(&k.mul(&k.c(3), &k.sq(z)), &k.mul(&k.c(4), &e.a));
    let q = k.neg(&k.div(&t, &k.mul(&k.c(4), &gz)));
    !k.z(&q) && k.is_sq(&q) && (k.is_sq(&gz) || k.is_sq(&e.rhs(&k.div(&k.neg(z), &k.c(2)))))
}
/// 6.7.1
fn ref_ell2<A: Ar>(e: &Ref<A>, z: &A::E, u: &A::E) -> Pt<A::E> {
    let k = &e.ar;
    // K*t^2 = s^3 + J*s^2 + s, with x = s/K, y = t/K
    let j = &e.a;
    let kk = &e.b;
    let jk = k.div(j, kk);
    let k2 = k.inv(&k.sq(kk));
    let g = |x: &A::E| k.mul(x, &k.add(&k.mul(x, &k.add(x, &jk)), &k2));
    let den = k.add(&k.c(1), &k.mul(z, &k.sq(u)));
    let x1 = if k.z(&den) { k.neg(&jk) } else { k.neg(&k.div(&jk, &den)) };
    let gx1 = g(&x1);
    let (x, y) = if k.is_sq(&gx1) {
        let y = if k.z(&gx1) { gx1.clone() } else { signed(k, &gx1, true) };
        (x1, y)
    } else {
        let x2 = k.sub(&k.neg(&x1), &jk);
        let y = signed(k, &g(&x2), false);
        (x2, y)
    };
    let (s, t) = (k.mul(&x, kk), k.mul(&y, kk));
    assert!(e.on(&s, &t));
    Some((s, t))
}

// ------------------------------------------------------------------------------------------- checking

fn chk<A: Ar, K: Kind>(l: &mut L, rf: &Ref<A>, c: &K::C, u: &A::E, want: &Pt<A::E>, map: &dyn Fn(&Elt) -> K::P) {
    l.state();
    let f = c.get_field();
    let k = || format!("u={u}");
    let r = l.run(k, || {
        let eu = rf.elt(&f, u);
        let q = map(&eu);
        if !c.is_on_curve(&q) {
            return Err(format!("{} is not on the curve", show(&q)));
        }
        let w = rf.point::<K>(c, want);
        if !(q == w && w == q) || q.encode(false) != rf.enc(want, false) {
            return Err(format!("got {}, expected {:?}", show(&q), want));
        }
        if eu != rf.elt(&f, u) {
            return Err("the argument changed".to_string());
        }
        Ok(())
    });
    if let Some(r) = r {
        l.ok(r.is_ok(), k, || r.clone().unwrap_err());
    }
    l.outcome(want);
}

/// A stand-in isogeny given by a table: point number i of the domain goes to point number i*m+1 of the codomain.
struct Table {
    e0: WC,
    e1: WC,
    p0: Vec<weierstrass::Point>,
    p1: Vec<weierstrass::Point>,
}
fn image(i: usize, n: usize) -> usize {
    (i * 3 + 1) % n
}
impl Isogeny for Table {
    type E0 = WC;
    type E1 = WC;
    fn domain(&self) -> WC {
        self.e0.clone()
    }
    fn codomain(&self) -> WC {
        self.e1.clone()
    }
    fn push(&self, p: weierstrass::Point) -> weierstrass::Point {
        let i = self.p0.iter().position(|q| *q == p).unwrap_or(0);
        self.p1[image(i, self.p1.len())].clone()
    }
}
struct RatTable {
    e0: EC,
    e1: MC,
    p0: Vec<edwards::Point>,
    p1: Vec<montgomery::Point>,
}
impl RationalMap for RatTable {
    type E0 = EC;
    type E1 = MC;
    fn domain(&self) -> EC {
        self.e0.clone()
    }
    fn codomain(&self) -> MC {
        self.e1.clone()
    }
    fn push(&self, p: edwards::Point) -> montgomery::Point {
        let i = self.p0.iter().position(|q| *q == p).unwrap_or(0);
        self.p1[image(i + 1, self.p1.len())].clone()
    }
    fn pull(&self, p: montgomery::Point) -> edwards::Point {
        let i = self.p1.iter().position(|q| *q == p).unwrap_or(0);
        self.p0[image(i, self.p0.len())].clone()
    }
}

fn rootable(p: u64) -> bool {
    p % 8 != 1
}
type J = (u64, u64, u64);

/// All (a,b) that give a non-singular curve; for Montgomery also b and s.
fn pairs(model: Model, ps: &[u64], keep: impl Fn(u64, usize) -> bool) -> Vec<(String, J)> {
    let mut v = vec![];
    for &p in ps {
        let mut i = 0;
        for a in 0..p {
            for b in 0..p {
                let ok = match model {
                    Model::W => !(4 * nt::powm(a, 3, p) + 27 * nt::powm(b, 2, p)).is_multiple_of(p),
                    _ => b != 0 && a * a % p != 4 % p,
                };
                if ok {
                    if keep(p, i) {
                        v.push((format!("{}(p={p},a={a},b={b})", if model == Model::W { "W" } else { "M" }), (p, a, b)));
                    }
                    i += 1;
                }
            }
        }
    }
    v
}
fn curve_of<K: Kind>(j: &J) -> (Ref<Z64>, K::C) {
    let (p, a, b) = *j;
    let s = if K::MODEL == Model::M { good_s(p, a, b).first().cloned().unwrap_or(1) } else { 0 };
    let t = Text { p: p.to_string(), a: a.to_string(), b: b.to_string(), s: s.to_string(), r: "3".into(), h: "1".into(), gx: "0".into(), gy: "1".into() };
    (Ref { ar: Z64(p), model: K::MODEL, a, b }, K::build(&t))
}

// ------------------------------------------------------------------------------------------------ C19

/// Inputs for a named curve: the boundary alphabet and the exceptional inputs.
fn inputs(k: &ZB, level: u32, exceptional: &[BigInt]) -> Vec<BigInt> {
    let mut v = nt::alphabet(&k.0, level);
    for t in exceptional {
        // u with u^2 = t
        if k.is_sq(t) {
            let u = k.sqrt(t);
            v.push(k.neg(&u));
            v.push(u);
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn c19(ctx: &Ctx) {
    c19_sizes(ctx);
    let ps: Vec<u64> = ctx.by(vec![5, 7, 11, 13, 19, 23, 29, 31], vec![5, 7, 11, 13, 19, 23, 29, 31, 37, 43]);
    ctx.bound(format!("every non-singular curve over GF(p), p in {ps:?} and a tenth of the curves of the next two primes, every Z accepted by the reference preconditions, every u: simplified SWU and Shallue-van de Woestijne, against the text of RFC 9380"));
    let mut all = ps.clone();
    all.extend(ctx.by(vec![37, 43], vec![47, 53]));
    let full = ps.clone();
    ctx.par("toy", pairs(Model::W, &all, |p, i| full.contains(&p) || i % 10 == 0), |l, j| {
        let (rf, c) = curve_of::<W>(j);
        let p = j.0;
        let f = c.get_field();
        let base = l.label.clone();
        for z in 0..p {
            if l.stopped() {
                return;
            }
            if sswu_ok(&rf, &z) {
                l.label = format!("{base}/sswu,z={z}");
                if let Some(m) = l.run(|| "new".into(), || weierstrass::SSWU::new(c.clone(), fe(&f, z))) {
                    let m2 = m.clone();
                    for u in 0..p {
                        let w = ref_sswu(&rf, &z, &u);
                        chk::<_, W>(l, &rf, &c, &u, &w, &|e| if u % 2 == 0 { m.map(e) } else { m2.map(e) });
                    }
                }
            }
            if svdw_ok(&rf, &z) {
                l.label = format!("{base}/svdw,z={z}");
                if let Some(m) = l.run(|| "new".into(), || weierstrass::SVDW::new(c.clone(), fe(&f, z))) {
                    for u in 0..p {
                        let w = ref_svdw(&rf, &z, &u);
                        chk::<_, W>(l, &rf, &c, &u, &w, &|e| m.map(e));
                    }
                }
            }
        }
        l.label = base;
    });
    let ps: Vec<u64> = ctx.by(vec![7, 11, 13, 19], vec![7, 11, 13, 19, 23]);
    ctx.bound(format!("the isogeny variant over GF(p), p in {ps:?}: every domain curve and Z for the simplified SWU map, a codomain with a=0 and one with b=0, a table as the isogeny (the image of every point is known), every u"));
    ctx.par("ab0", pairs(Model::W, &ps, |_, _| true), |l, j| {
        let (rf, c) = curve_of::<W>(j);
        let p = j.0;
        if rf.a == 0 || rf.b == 0 {
            return;
        }
        let f = c.get_field();
        let base = l.label.clone();
        let t0 = Toy::bare(Model::W, p, rf.a, rf.b, 0).unwrap();
        for (a1, b1) in [(0, rf.a), (rf.b, 0)] {
            let Some(t1) = Toy::bare(Model::W, p, a1, b1, 0) else { continue };
            let (rf1, c1) = curve_of::<W>(&(p, a1, b1));
            for z in 0..p {
                if !sswu_ok(&rf, &z) || (p > 11 && (z + rf.a) % 3 != 0) {
                    continue;
                }
                l.label = format!("{base}/a={a1},b={b1},z={z}");
                let iso = Box::new(Table {
                    e0: c.clone(),
                    e1: c1.clone(),
                    p0: t0.pts.iter().map(|q| rf.point::<W>(&c, q)).collect(),
                    p1: t1.pts.iter().map(|q| rf1.point::<W>(&c1, q)).collect(),
                });
                if let Some(m) = l.run(|| "new".into(), || weierstrass::SSWUAB0::new(c1.clone(), fe(&f, z), iso)) {
                    for u in 0..p {
                        let w = ref_sswu(&rf, &z, &u);
                        let w1 = t1.pts[image(t0.idx[&w], t1.n())];
                        chk::<_, W>(l, &rf1, &c1, &u, &w1, &|e| m.map(e));
                    }
                }
            }
        }
        l.label = base;
    });
    ctx.bound("named curves with the constants of the RFC 9380 suites: boundary alphabet of the field (all word boundaries) and the exceptional inputs");
    let level = ctx.by(1, 2);
    let sswu = vec![("P256", -10i64), ("P384", -12), ("P521", -4), ("SECP256K1_3ISO", -11), ("BLS12381G1_11ISO", 11)];
    let parts = 3usize;
    let split = |v: Vec<(&'static str, i64)>| -> Vec<(String, (&'static str, i64, usize))> {
        v.into_iter().flat_map(|(n, z)| (0..parts).map(move |i| (format!("{n},z={z}/{i}"), (n, z, i)))).collect()
    };
    let row = |n: &str| rows::<W>().iter().position(|r| r[0] == n).unwrap();
    ctx.par("sswu-named", split(sswu), |l, &(name, z, part)| {
        let n = named::<W>(row(name));
        let k = n.rf.ar.clone();
        let zz = k.c(z);
        assert!(sswu_ok(&n.rf, &zz));
        let exc = [k.neg(&k.inv(&zz))];
        if let Some(m) = l.run(|| "new".into(), || weierstrass::SSWU::new(n.c.clone(), n.rf.elt(&n.c.get_field(), &zz))) {
            for (i, u) in inputs(&k, level, &exc).iter().enumerate() {
                if i % parts == part {
                    let w = ref_sswu(&n.rf, &zz, u);
                    chk::<_, W>(l, &n.rf, &n.c, u, &w, &|e| m.map(e));
                }
            }
        }
    });
    let svdw = vec![("P256", -3i64), ("P384", -1), ("P521", 1), ("SECP256K1", 1), ("BLS12381G1", -3), ("SECP256K1_3ISO", 0), ("BLS12381G1_11ISO", 0)];
    ctx.par("svdw-named", split(svdw), |l, &(name, z, part)| {
        let n = named::<W>(row(name));
        let k = n.rf.ar.clone();
        // without a published Z: the smallest one that is accepted
        let zz = if z != 0 { k.c(z) } else { (1..200).map(|i| k.c(i)).find(|z| svdw_ok(&n.rf, z)).unwrap() };
        assert!(svdw_ok(&n.rf, &zz));
        let g = k.inv(&n.rf.rhs(&zz));
        let exc = [g.clone(), k.neg(&g)];
        if let Some(m) = l.run(|| "new".into(), || weierstrass::SVDW::new(n.c.clone(), n.rf.elt(&n.c.get_field(), &zz))) {
            for (i, u) in inputs(&k, level, &exc).iter().enumerate() {
                if i % parts == part {
                    let w = ref_svdw(&n.rf, &zz, u);
                    chk::<_, W>(l, &n.rf, &n.c, u, &w, &|e| m.map(e));
                }
            }
        }
    });
    let ab0: Vec<(String, (usize, i64, usize))> =
        [("secp256k1", -11i64), ("bls12381g1", 11)].iter().enumerate().flat_map(|(w, (n, z))| (0..parts).map(move |i| (format!("{n}/{i}"), (w, *z, i)))).collect();
    ctx.par("ab0-named", ab0, |l, &(which, z, part)| {
        let (n0, n1, iso) = iso_setting(which);
        let k = n0.rf.ar.clone();
        let zz = k.c(z);
        let exc = [k.neg(&k.inv(&zz))];
        if let Some(m) = l.run(|| "new".into(), || weierstrass::SSWUAB0::new(n1.c.clone(), n0.rf.elt(&n0.c.get_field(), &zz), dyn_iso(which))) {
            for (i, u) in inputs(&k, level, &exc).iter().enumerate() {
                if i % parts == part {
                    let w = iso.apply(&ref_sswu(&n0.rf, &zz, u));
                    chk::<_, W>(l, &n1.rf, &n1.c, u, &w, &|e| m.map(e));
                }
            }
        }
    });
}

// -------------------------------------------------------------------------------------- fields of every size

/// Primes for which square roots exist, one job for each.
fn sizes(ctx: &Ctx, per: usize) -> Vec<(String, Prime)> {
    jobs(with_named_(ctx, table(ctx, per)).into_iter().filter(|q| q.class != 1 && q.bits >= 6).collect())
}
/// A residue with all words in use.
fn dense(p: &BigInt, i: u64) -> BigInt {
    (p * BigInt::from(0x9e37_79b9_7f4a_7c15u64.rotate_left(7 * i as u32) | 1)) >> 64u32
}
fn big_curve<K: Kind>(q: &Prime, a: BigInt, b: BigInt) -> Option<(Ref<ZB>, K::C)> {
    let p = &q.p;
    let (a, b) = (nt::red(&a, p), nt::red(&b, p));
    let bad = match K::MODEL {
        Model::W => nt::red(&(&a * &a * &a * 4 + &b * &b * 27), p) == nt::big(0),
        _ => b == nt::big(0) || nt::red(&(&a * &a), p) == nt::big(4),
    };
    if bad {
        return None;
    }
    let t = Text { p: p.to_string(), a: a.to_string(), b: b.to_string(), s: "1".into(), r: "3".into(), h: "1".into(), gx: "0".into(), gy: "1".into() };
    Some((Ref { ar: ZB(p.clone()), model: K::MODEL, a, b }, K::build(&t)))
}
fn big_curves<K: Kind>(q: &Prime) -> Vec<(Ref<ZB>, K::C)> {
    let d = |i| dense(&q.p, i);
    let n = nt::big;
    let v = match K::MODEL {
        Model::W => vec![(n(-3), d(1)), (d(2), d(3)), (n(1), n(7)), (n(0), d(4)), (d(5), n(0))],
        _ => vec![(d(1), n(1)), (d(2), d(3)), (n(6), n(1)), (n(-1), d(4))],
    };
    v.into_iter().filter_map(|(a, b)| big_curve::<K>(q, a, b)).collect()
}
/// The first two values of Z that are accepted.
fn two_z(rf: &Ref<ZB>, good: impl Fn(&BigInt) -> bool) -> Vec<BigInt> {
    (1..400i64).flat_map(|i| [i, -i]).map(|i| rf.ar.c(i)).filter(good).take(2).collect()
}
fn affine(f: &redox_ecc::primefield::Fp, e: &[u8]) -> Pt<BigInt> {
    use redox_ecc::field::Field;
    let n = f.size_bytes();
    let of = |b: &[u8]| BigInt::from_bytes_be(num_bigint::Sign::Plus, b);
    if e.len() == 1 {
        None
    } else {
        Some((of(&e[1..n + 1]), of(&e[n + 1..])))
    }
}
/// A stand-in isogeny: the image is chosen among sixteen points of the codomain by the coordinates.
#[derive(Clone)]
struct Pick {
    e0: WC,
    e1: WC,
    to: Vec<Pt<BigInt>>,
    rf1: Ref<ZB>,
}
impl Pick {
    fn at(&self, p: &Pt<BigInt>) -> Pt<BigInt> {
        match p {
            None => None,
            Some((x, y)) => self.to[(nt::low(x) % 8 * 2 + nt::low(y) % 2) as usize].clone(),
        }
    }
}
impl Isogeny for Pick {
    type E0 = WC;
    type E1 = WC;
    fn domain(&self) -> WC {
        self.e0.clone()
    }
    fn codomain(&self) -> WC {
        self.e1.clone()
    }
    fn push(&self, p: weierstrass::Point) -> weierstrass::Point {
        let q = self.at(&affine(&self.e0.get_field(), &p.encode(false)));
        self.rf1.point::<W>(&self.e1, &q)
    }
}
/// The birational map between a Montgomery curve and its Edwards form, computed by the reference.
#[derive(Clone)]
struct Birational {
    e0: EC,
    e1: MC,
    rf0: Ref<ZB>,
}
impl Birational {
    fn at(&self, p: &Pt<BigInt>) -> Pt<BigInt> {
        let k = &self.rf0.ar;
        match p {
            Some((s, t)) if !k.z(t) && !k.z(&k.add(s, &k.c(1))) => Some((k.div(s, t), k.div(&k.sub(s, &k.c(1)), &k.add(s, &k.c(1))))),
            _ => self.rf0.id(),
        }
    }
}
impl RationalMap for Birational {
    type E0 = EC;
    type E1 = MC;
    fn domain(&self) -> EC {
        self.e0.clone()
    }
    fn codomain(&self) -> MC {
        self.e1.clone()
    }
    fn push(&self, _: edwards::Point) -> montgomery::Point {
        unimplemented!()
    }
    fn pull(&self, p: montgomery::Point) -> edwards::Point {
        let q = self.at(&affine(&self.e1.get_field(), &p.encode(false)));
        self.rf0.point::<E>(&self.e0, &q)
    }
}
fn c19_sizes(ctx: &Ctx) {
    ctx.bound(format!("fields of every size (every {}th prime of the table, those with a square root, 24 special ones, primes of 640 to 1031 bits; thorough: all): five curves, two Z each, boundary alphabet and exceptional inputs: simplified SWU, its isogeny variant onto a curve with a=0 or b=0 (a stand-in isogeny that tells sixteen classes of points apart), Shallue-van de Woestijne", ctx.by(60, 8)));
    ctx.par("sizes", sizes_of(ctx), |l, q| {
        let base = l.label.clone();
        for (rf, c) in big_curves::<W>(q) {
            let k = rf.ar.clone();
            let f = c.get_field();
            for z in two_z(&rf, |z| sswu_ok(&rf, z)) {
                if l.stopped() {
                    return;
                }
                l.label = format!("{base}/a={},b={},sswu,z={z}", rf.a, rf.b);
                let us = inputs(&k, 0, &[k.neg(&k.inv(&z))]);
                if let Some(m) = l.run(|| "new".into(), || weierstrass::SSWU::new(c.clone(), rf.elt(&f, &z))) {
                    for u in &us {
                        chk::<_, W>(l, &rf, &c, u, &ref_sswu(&rf, &z, u), &|e| m.map(e));
                    }
                }
                l.label = format!("{base}/a={},b={},ab0,z={z}", rf.a, rf.b);
                // the codomains y^2 = x^3 + 8 and y^2 = x^3 + 3x through (1,3) and (1,2)
                for (a1, b1, y) in [(0i64, 8i64, 3i64), (3, 0, 2)] {
                    let Some((rf1, c1)) = big_curve::<W>(q, nt::big(a1), nt::big(b1)) else { continue };
                    let g = Some((k.c(1), k.c(y)));
                    let mut to = vec![g.clone()];
                    while to.len() < 16 {
                        to.push(rf1.add(to.last().unwrap(), &g));
                    }
                    let iso = Pick { e0: c.clone(), e1: c1.clone(), to, rf1: rf1.clone() };
                    let made = iso.clone();
                    if let Some(m) = l.run(|| "new".into(), || weierstrass::SSWUAB0::new(c1.clone(), rf.elt(&f, &z), Box::new(made))) {
                        for u in us.iter().step_by(3) {
                            chk::<_, W>(l, &rf1, &c1, u, &iso.at(&ref_sswu(&rf, &z, u)), &|e| m.map(e));
                        }
                    }
                }
            }
            for z in two_z(&rf, |z| svdw_ok(&rf, z)) {
                l.label = format!("{base}/a={},b={},svdw,z={z}", rf.a, rf.b);
                let g = k.inv(&rf.rhs(&z));
                if let Some(m) = l.run(|| "new".into(), || weierstrass::SVDW::new(c.clone(), rf.elt(&f, &z))) {
                    for u in inputs(&k, 0, &[g.clone(), k.neg(&g)]) {
                        chk::<_, W>(l, &rf, &c, &u, &ref_svdw(&rf, &z, &u), &|e| m.map(e));
                    }
                }
            }
        }
        l.label = base;
    });
}
fn sizes_of(ctx: &Ctx) -> Vec<(String, Prime)> {
    let v = sizes(ctx, 60);
    if ctx.quick() {
        v
    } else {
        v.into_iter().enumerate().filter(|(i, q)| i % 8 == 0 || q.1.name.contains('(')).map(|x| x.1).collect()
    }
}
fn c20_sizes(ctx: &Ctx) {
    ctx.bound(format!("fields of every size (every {}th prime of the table, those with a square root, 24 special ones, primes of 640 to 1031 bits): four curves, two Z each, boundary alphabet and exceptional inputs: Elligator 2 and its Edwards variant with the birational map", ctx.by(60, 8)));
    ctx.par("sizes", sizes_of(ctx), |l, q| {
        let base = l.label.clone();
        for (rf, c) in big_curves::<M>(q) {
            let k = rf.ar.clone();
            let f = c.get_field();
            let (ea, ed) = (k.div(&k.add(&rf.a, &k.c(2)), &rf.b), k.div(&k.sub(&rf.a, &k.c(2)), &rf.b));
            let ce = E::build(&Text { p: q.p.to_string(), a: ea.to_string(), b: ed.to_string(), s: "0".into(), r: "3".into(), h: "1".into(), gx: "0".into(), gy: "1".into() });
            let rf0 = Ref { ar: k.clone(), model: Model::E, a: ea, b: ed };
            let bi = Birational { e0: ce.clone(), e1: c.clone(), rf0: rf0.clone() };
            for z in two_z(&rf, |z| !k.is_sq(z)) {
                if l.stopped() {
                    return;
                }
                let us = inputs(&k, 0, &[k.neg(&k.inv(&z)), k.mul(&k.c(-2), &k.inv(&z))]);
                l.label = format!("{base}/a={},b={},z={z}", rf.a, rf.b);
                if let Some(m) = l.run(|| "new".into(), || montgomery::Ell2::new(c.clone(), rf.elt(&f, &z))) {
                    for u in &us {
                        chk::<_, M>(l, &rf, &c, u, &ref_ell2(&rf, &z, u), &|e| m.map(e));
                    }
                }
                l.label = format!("{base}/a={},b={},edwards,z={z}", rf.a, rf.b);
                let made = bi.clone();
                if let Some(m) = l.run(|| "new".into(), || edwards::Ell2::new(ce.clone(), rf.elt(&f, &z), Some(Box::new(made)))) {
                    for u in us.iter().step_by(2) {
                        chk::<_, E>(l, &rf0, &ce, u, &bi.at(&ref_ell2(&rf, &z, u)), &|e| m.map(e));
                    }
                }
            }
        }
        l.label = base;
    });
}
fn c21_sizes(ctx: &Ctx) {
    ctx.bound("fields of every size, as in C19 and C20: every Z in [-24, 24] and the boundary alphabet, zero included, for simplified SWU, Shallue-van de Woestijne and Elligator 2 on nine curves");
    ctx.par("sizes", sizes_of(ctx), |l, q| {
        let zs = |k: &ZB| {
            let mut v: Vec<BigInt> = (-24i64..=24).map(|z| k.c(z)).collect();
            v.extend(nt::alphabet(&k.0, 0));
            v
        };
        for (rf, c) in big_curves::<W>(q) {
            let f = c.get_field();
            for z in zs(&rf.ar) {
                if l.stopped() {
                    return;
                }
                let ez = rf.elt(&f, &z);
                ctor(l, || format!("SSWU,a={},b={},z={z}", rf.a, rf.b), sswu_ok(&rf, &z), || weierstrass::SSWU::new(c.clone(), ez.clone()));
                ctor(l, || format!("SVDW,a={},b={},z={z}", rf.a, rf.b), svdw_ok(&rf, &z), || weierstrass::SVDW::new(c.clone(), ez.clone()));
            }
        }
        for (rf, c) in big_curves::<M>(q) {
            let f = c.get_field();
            for z in zs(&rf.ar) {
                let ez = rf.elt(&f, &z);
                ctor(l, || format!("Ell2,a={},b={},z={z}", rf.a, rf.b), !rf.ar.is_sq(&z), || montgomery::Ell2::new(c.clone(), ez.clone()));
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------ C20

pub fn c20(ctx: &Ctx) {
    c20_sizes(ctx);
    let ps: Vec<u64> = ctx.by(vec![3, 5, 7, 11, 13, 19, 23, 29, 31], vec![3, 5, 7, 11, 13, 19, 23, 29, 31, 37, 43]);
    ctx.bound(format!("every Montgomery curve with a and b not zero over GF(p), p in {ps:?} and a tenth of the curves of the next two primes, every non-square Z, every u, against the text of RFC 9380"));
    let mut all = ps.clone();
    all.extend(ctx.by(vec![37, 43], vec![47, 53]));
    let full = ps.clone();
    ctx.par("toy", pairs(Model::M, &all, |p, i| full.contains(&p) || i % 10 == 0), |l, j| {
        let (rf, c) = curve_of::<M>(j);
        if rf.a == 0 {
            return;
        }
        let f = c.get_field();
        let base = l.label.clone();
        for z in 0..j.0 {
            if l.stopped() {
                return;
            }
            if rf.ar.is_sq(&z) {
                continue;
            }
            l.label = format!("{base}/z={z}");
            if let Some(m) = l.run(|| "new".into(), || montgomery::Ell2::new(c.clone(), fe(&f, z))) {
                for u in 0..j.0 {
                    let w = ref_ell2(&rf, &z, &u);
                    chk::<_, M>(l, &rf, &c, &u, &w, &|e| m.map(e));
                }
            }
        }
        l.label = base;
    });
    let ps: Vec<u64> = ctx.by(vec![7, 11, 13, 19], vec![7, 11, 13, 19, 23]);
    ctx.bound(format!("the Edwards variant over GF(p), p in {ps:?}: every Montgomery curve, a complete Edwards curve over the same field, a table as the rational map, every non-square Z, every u"));
    ctx.par("edwards-toy", pairs(Model::M, &ps, |_, _| true), |l, j| {
        let (rf, c) = curve_of::<M>(j);
        if rf.a == 0 {
            return;
        }
        let p = j.0;
        let f = c.get_field();
        let t0 = Toy::bare(Model::M, p, rf.a, rf.b, 0).unwrap();
        let eds = universe(Model::E, p);
        let (ea, eb, _) = eds[(rf.a * 7 + rf.b) as usize % eds.len()];
        let t1 = Toy::bare(Model::E, p, ea, eb, 0).unwrap();
        let ce = t1.build::<E>();
        let base = l.label.clone();
        for z in 0..p {
            if rf.ar.is_sq(&z) || (p > 11 && z % 3 != rf.a % 3) {
                continue;
            }
            l.label = format!("{base}/z={z}");
            let tab = Box::new(RatTable {
                e0: ce.clone(),
                e1: c.clone(),
                p0: t1.pts.iter().map(|q| t1.rf.point::<E>(&ce, q)).collect(),
                p1: t0.pts.iter().map(|q| rf.point::<M>(&c, q)).collect(),
            });
            if let Some(m) = l.run(|| "new".into(), || edwards::Ell2::new(ce.clone(), fe(&f, z), Some(tab))) {
                for u in 0..p {
                    let w = ref_ell2(&rf, &z, &u);
                    let w1 = t1.pts[image(t0.idx[&w], t1.n())];
                    chk::<_, E>(l, &t1.rf, &ce, &u, &w1, &|e| m.map(e));
                }
            }
        }
        l.label = base;
    });
    ctx.bound("curve25519 (Z=2), curve448 (Z=-1) and their Edwards forms: boundary alphabet of the field and the inputs that hit an exceptional case (Z*u^2 = -1, abscissas 0 and -a)");
    let level = ctx.by(1, 2);
    let parts = 4usize;
    let js: Vec<(String, (bool, usize))> = [(true, "25519"), (false, "448")].iter().flat_map(|(b, n)| (0..parts).map(move |i| (format!("{n}/{i}"), (*b, i)))).collect();
    ctx.par("named", js, |l, &(bi, part)| {
        let (e, n, rm) = map_setting(bi);
        let k = n.rf.ar.clone();
        let zz = k.c(if bi { 2 } else { -1 });
        assert!(!k.is_sq(&zz));
        let minus = k.neg(&k.inv(&zz));
        // 1 + Z*u^2 = -1 and neighbours of the exceptional input
        let exc = [minus.clone(), k.mul(&k.c(2), &minus), k.add(&minus, &k.c(1))];
        let f = n.c.get_field();
        let m = l.run(|| "new".into(), || montgomery::Ell2::new(n.c.clone(), n.rf.elt(&f, &zz)));
        let em = l.run(|| "new".into(), || edwards::Ell2::new(e.c.clone(), n.rf.elt(&f, &zz), Some(dyn_map(bi))));
        let (Some(m), Some(em)) = (m, em) else { return };
        let base = l.label.clone();
        for (i, u) in inputs(&k, level, &exc).iter().enumerate() {
            if i % parts != part {
                continue;
            }
            let w = ref_ell2(&n.rf, &zz, u);
            l.label = format!("{base}/montgomery");
            chk::<_, M>(l, &n.rf, &n.c, u, &w, &|x| m.map(x));
            l.label = format!("{base}/edwards");
            chk::<_, E>(l, &e.rf, &e.c, u, &rm.pull(&w), &|x| em.map(x));
        }
        l.label = base;
    });
}

// ------------------------------------------------------------------------------------------------ C21

fn ctor<T>(l: &mut L, key: impl Fn() -> String, accept: bool, f: impl FnOnce() -> T) {
    l.state();
    if accept {
        if l.run(&key, f).is_some() {
            l.ok(true, &key, String::new);
        }
        l.outcome(&"accepted");
    } else {
        l.refused(&key, f);
        l.outcome(&"refused");
    }
}

pub fn c21(ctx: &Ctx) {
    c21_sizes(ctx);
    let ps: Vec<u64> = ctx.by(vec![5, 7, 11, 13, 17, 19, 23, 29, 31], vec![5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]);
    ctx.bound(format!("every (a,b) and every Z, zero included, over GF(p), p in {ps:?}: simplified SWU, Shallue-van de Woestijne (acceptance for p not 1 mod 8) and Elligator 2, acceptance and refusal against the preconditions evaluated by the reference"));
    let mut js: Vec<(String, J)> = vec![];
    for &p in &ps {
        for a in 0..p {
            for b in 0..p {
                js.push((format!("p={p},a={a},b={b}"), (p, a, b)));
            }
        }
    }
    ctx.par("toy", js, |l, j| {
        let (rf, c) = curve_of::<W>(j);
        let f = c.get_field();
        let p = j.0;
        for z in 0..p {
            ctor(l, || format!("SSWU,z={z}"), sswu_ok(&rf, &z), || weierstrass::SSWU::new(c.clone(), fe(&f, z)));
            let ok = svdw_ok(&rf, &z);
            if !ok || rootable(p) {
                ctor(l, || format!("SVDW,z={z}"), ok, || weierstrass::SVDW::new(c.clone(), fe(&f, z)));
            }
        }
        let (rm, cm) = curve_of::<M>(j);
        for z in 0..p {
            let ok = rm.a != 0 && rm.b != 0 && !rm.ar.is_sq(&z);
            ctor(l, || format!("Ell2,z={z}"), ok, || montgomery::Ell2::new(cm.clone(), fe(&f, z)));
        }
    });
    let ps: Vec<u64> = ctx.by(vec![5, 7, 11], vec![5, 7, 11, 13]);
    ctx.bound(format!("isogeny variant over GF(p), p in {ps:?}: every codomain (a,b), domains good and bad for the simplified SWU map, every Z, the right codomain, codomains differing in a coefficient, the order or the field, and swapped ends; Edwards variant: the right domain, domains differing in a coefficient, order or field, every Z and Montgomery curves with a=0"));
    let mut js: Vec<(String, J)> = vec![];
    for &p in &ps {
        for a in 0..p {
            for b in 0..p {
                js.push((format!("p={p},a={a},b={b}"), (p, a, b)));
            }
        }
    }
    ctx.par("composed", js, |l, j| {
        let p = j.0;
        let build = |p: u64, a: u64, b: u64, r: u64| {
            let t = Text { p: p.to_string(), a: a.to_string(), b: b.to_string(), s: "1".into(), r: r.to_string(), h: "1".into(), gx: "0".into(), gy: "1".into() };
            (W::build(&t), E::build(&t), M::build(&t))
        };
        // the codomain
        let (c1, e1, _) = build(p, j.1, j.2, 3);
        let f = c1.get_field();
        let others = [
            ("a", build(p, (j.1 + 1) % p, j.2, 3)),
            ("b", build(p, j.1, (j.2 + 1) % p, 3)),
            ("order", build(p, j.1, j.2, 5)),
            ("field", build(if p == 5 { 11 } else { 5 }, j.1, j.2, 3)),
        ];
        let domains: Vec<J> = vec![(p, 1, 1), (p, 2, p - 1), (p, p - 1, 2), (p, 0, 1), (p, 1, 0)];
        for d in &domains {
            let (rf, c0) = curve_of::<W>(d);
            let (rm, cm) = curve_of::<M>(d);
            for z in 0..p {
                let tab = |e0: &WC, e1: &WC| Box::new(Table { e0: e0.clone(), e1: e1.clone(), p0: vec![], p1: vec![] });
                let ok = (j.1 == 0) != (j.2 == 0) && sswu_ok(&rf, &z);
                let key = |t: &str| format!("SSWUAB0,{t},domain={},{},z={z}", d.1, d.2);
                ctor(l, || key("right"), ok, || weierstrass::SSWUAB0::new(c1.clone(), fe(&f, z), tab(&c0, &c1)));
                // SSWU has to be usable on the domain, not on the codomain
                if c0 != c1 {
                    ctor(l, || key("swapped"), false, || weierstrass::SSWUAB0::new(c1.clone(), fe(&f, z), tab(&c1, &c0)));
                }
                for (n, o) in &others {
                    ctor(l, || key(n), false, || weierstrass::SSWUAB0::new(c1.clone(), fe(&f, z), tab(&c0, &o.0)));
                }
                let rat = |e0: &EC| Some(Box::new(RatTable { e0: e0.clone(), e1: cm.clone(), p0: vec![], p1: vec![] }) as Box<dyn RationalMap<E0 = EC, E1 = MC>>);
                let ok = rm.a != 0 && rm.b != 0 && !rm.ar.is_sq(&z);
                let key = |t: &str| format!("edwards Ell2,{t},codomain={},{},z={z}", d.1, d.2);
                ctor(l, || key("right"), ok, || edwards::Ell2::new(e1.clone(), fe(&f, z), rat(&e1)));
                for (n, o) in &others {
                    ctor(l, || key(n), false, || edwards::Ell2::new(e1.clone(), fe(&f, z), rat(&o.1)));
                }
            }
        }
    });
    ctx.bound("every named curve: every Z in [-32, 32] and the boundary alphabet, for SSWU, SVDW and Elligator 2; the two named isogenies and rational maps with right and wrong curves");
    let level = ctx.by(0, 2);
    ctx.par("named-w", named_jobs::<W>(), |l, &i| {
        let n = named::<W>(i);
        let k = n.rf.ar.clone();
        let f = n.c.get_field();
        let mut zs: Vec<BigInt> = (-32i64..=32).map(|z| k.c(z)).collect();
        zs.extend(nt::alphabet(&k.0, level));
        for z in zs {
            let ez = n.rf.elt(&f, &z);
            ctor(l, || format!("SSWU,z={z}"), sswu_ok(&n.rf, &z), || weierstrass::SSWU::new(n.c.clone(), ez.clone()));
            ctor(l, || format!("SVDW,z={z}"), svdw_ok(&n.rf, &z), || weierstrass::SVDW::new(n.c.clone(), ez.clone()));
            for which in 0..2 {
                if l.ctx.quick() && nt::low(&z) % 4 != which as u64 {
                    continue;
                }
                let (d, c, _) = iso_setting(which);
                let ok = n.name == c.name && sswu_ok(&d.rf, &z);
                if n.rf.ar.0 == c.rf.ar.0 {
                    ctor(l, || format!("SSWUAB0,{which},z={z}"), ok, || weierstrass::SSWUAB0::new(n.c.clone(), ez.clone(), dyn_iso(which)));
                }
            }
        }
    });
    ctx.par("named-m", named_jobs::<M>(), |l, &i| {
        let n = named::<M>(i);
        let k = n.rf.ar.clone();
        let f = n.c.get_field();
        let mut zs: Vec<BigInt> = (-32i64..=32).map(|z| k.c(z)).collect();
        zs.extend(nt::alphabet(&k.0, level));
        let eds: Vec<Named<E>> = named_jobs::<E>().into_iter().map(|(_, i)| named::<E>(i)).collect();
        for z in zs {
            let ez = n.rf.elt(&f, &z);
            let ok = !k.is_sq(&z);
            ctor(l, || format!("Ell2,z={z}"), ok, || montgomery::Ell2::new(n.c.clone(), ez.clone()));
            for (j, e) in eds.iter().enumerate() {
                let bi = n.name == "CURVE25519";
                let right = bi == (e.name == "EDWARDS25519");
                let _ = j;
                ctor(l, || format!("edwards Ell2 on {},z={z}", e.name), ok && right, || edwards::Ell2::new(e.c.clone(), ez.clone(), Some(dyn_map(bi))));
            }
        }
    });
}
