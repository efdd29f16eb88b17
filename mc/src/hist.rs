//! The operation alphabet of C26 and C27: operations over a pool of structures that are built on first use, and
//! are then shared by all later operations of the same history. The result of an operation is a text.

use crate::api::*;
use crate::nt::big;
use crate::p_maps::{sswu_ok, svdw_ok};
use crate::refcurve::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode, Isogeny, MapToCurve, RationalMap};
use redox_ecc::instances;
use redox_ecc::primefield::Fp;
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

pub struct Toys {
    pub w: Vec<Toy>,
    pub e: Vec<Toy>,
    pub m: Vec<Toy>,
    /// curve index, Z
    pub sswu: (u64, u64),
    pub svdw: u64,
    pub ell2: u64,
}

/// Chosen with the reference arithmetic only: nothing of the code under test runs here.
pub fn toys_once() -> &'static Toys {
    static T: OnceLock<Toys> = OnceLock::new();
    T.get_or_init(|| {
        let w19 = |a, b| Toy::new(Model::W, 19, a, b, 0).filter(|t| crate::nt::is_prime64(t.n() as u64) && t.n() > 7);
        let mut w = vec![];
        let (mut zs, mut zv) = (0, 0);
        'o: for a in 1..19u64 {
            for b in 1..19u64 {
                if let Some(t) = w19(a, b) {
                    let s = (2..19).find(|z| sswu_ok(&t.rf, z));
                    let v = (1..19).find(|z| svdw_ok(&t.rf, z));
                    if let (Some(s), Some(v)) = (s, v) {
                        zs = s;
                        zv = v;
                        w.push(t);
                        break 'o;
                    }
                }
            }
        }
        // another curve over the same field and one over a field of the other class
        'p: for a in (1..19u64).rev() {
            for b in 1..19u64 {
                if let Some(t) = w19(a, b) {
                    if t.rf.a != w[0].rf.a && t.r != w[0].r {
                        w.push(t);
                        break 'p;
                    }
                }
            }
        }
        let of = |m, p, i: usize| {
            let u = universe(m, p);
            let (a, b, s) = u[i % u.len()];
            Toy::new(m, p, a, b, s).unwrap()
        };
        w.push(of(Model::W, 13, 5));
        let e = vec![of(Model::E, 13, 7), of(Model::E, 19, 11)];
        let mut m = vec![];
        for p in [19, 13] {
            let (a, b, s) = universe(Model::M, p).into_iter().find(|c| c.0 > 1 && c.1 > 1).unwrap();
            m.push(Toy::new(Model::M, p, a, b, s).unwrap());
        }
        Toys { w, e, m, sswu: (0, zs), svdw: zv, ell2: 2 }
    })
}

pub struct CurveOf<K: Kind> {
    pub c: K::C,
    pub pts: Vec<K::P>,
    /// computed points, not normalized
    pub proj: Vec<K::P>,
    pub ks: Vec<K::S>,
}

impl<K: Kind> CurveOf<K> {
    pub fn new(t: &Toy) -> Self {
        let c = t.build::<K>();
        let pts: Vec<K::P> = t.pts.iter().take(8).map(|p| t.rf.point::<K>(&c, p)).collect();
        let proj = (1..pts.len()).map(|i| K::add(&pts[i], &pts[i - 1])).collect();
        let ks = [0, 1, 2, 5, -1].iter().map(|k| c.new_scalar(big(*k))).collect();
        CurveOf { c, pts, proj, ks }
    }
    fn show(&self, o: &mut Vec<String>) {
        o.push(self.c.to_string());
        o.extend(self.pts.iter().chain(&self.proj).map(|p| p.to_string()));
        o.extend(self.ks.iter().map(|p| p.to_string()));
    }
}

#[derive(Default)]
pub struct Pool {
    fp: [Option<(Fp, Vec<Elt>)>; 6],
    f2: [Option<(Fp2, Vec<Fp2Elt>)>; 2],
    w: [Option<CurveOf<W>>; 3],
    e: [Option<CurveOf<E>>; 2],
    m: [Option<CurveOf<M>>; 2],
    p256: Option<CurveOf<W>>,
    sswu: Option<weierstrass::SSWU>,
    svdw: Option<weierstrass::SVDW>,
    ell2: Option<montgomery::Ell2>,
    map25519: Option<DynMap>,
    map448: Option<DynMap>,
    iso: Option<DynIso>,
    iso_bls: Option<DynIso>,
    sswu_bls: Option<weierstrass::SSWUAB0>,
    sswu_k1: Option<weierstrass::SSWUAB0>,
    ell2_ed: Option<edwards::Ell2>,
}
type DynMap = Box<dyn RationalMap<E0 = edwards::Curve, E1 = montgomery::Curve>>;
type DynIso = Box<dyn Isogeny<E0 = weierstrass::Curve, E1 = weierstrass::Curve>>;

const MODULI: [&str; 6] = ["19", "13", "17", "41", "23", "57896044618658097711785492504343953926634992332820282019728792003956564819949"];

impl Pool {
    fn fp(&mut self, i: usize) -> &(Fp, Vec<Elt>) {
        self.fp[i].get_or_insert_with(|| {
            let f = Fp::new(MODULI[i].parse::<BigUint>().unwrap());
            let n = if i == 5 { 6 } else { MODULI[i].parse::<i64>().unwrap() };
            let v = (0..n).map(|k| f.elt(if i == 5 { big(k) - 2 } else { big(k) })).collect();
            (f, v)
        })
    }
    fn f2(&mut self, i: usize) -> &(Fp2, Vec<Fp2Elt>) {
        self.f2[i].get_or_insert_with(|| {
            let p = [7, 11][i];
            let f = Fp2::new(BigUint::from(p as u32));
            let v = (0..p * p).map(|k| f.from(format!("{},{}", k / p, k % p).as_str())).collect();
            (f, v)
        })
    }
    fn w(&mut self, i: usize) -> &CurveOf<W> {
        self.w[i].get_or_insert_with(|| CurveOf::new(&toys_once().w[i]))
    }
    fn e(&mut self, i: usize) -> &CurveOf<E> {
        self.e[i].get_or_insert_with(|| CurveOf::new(&toys_once().e[i]))
    }
    fn m(&mut self, i: usize) -> &CurveOf<M> {
        self.m[i].get_or_insert_with(|| CurveOf::new(&toys_once().m[i]))
    }
    /// What the structures of the pool look like; operations must leave the ones they find unchanged.
    pub fn snapshot(&self) -> Vec<String> {
        let mut o = vec![];
        for f in self.fp.iter().flatten() {
            o.push(f.0.to_string());
            o.extend(f.1.iter().map(|x| x.to_string()));
        }
        for f in self.f2.iter().flatten() {
            o.push(f.0.to_string());
            o.extend(f.1.iter().map(|x| x.to_string()));
        }
        self.w.iter().flatten().for_each(|c| c.show(&mut o));
        self.p256.iter().for_each(|c| c.show(&mut o));
        self.e.iter().flatten().for_each(|c| c.show(&mut o));
        self.m.iter().flatten().for_each(|c| c.show(&mut o));
        o
    }
}

thread_local! {
    /// Panics raised while this is set are expected outcomes, and are not printed.
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
}
pub fn install_quiet_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            def(i)
        }
    }));
}
thread_local! {
    /// How often each step inside an operation is done, one time right after the other.
    pub static TIMES: Cell<u32> = const { Cell::new(1) };
}
/// A step of an operation: its text, or a mark when it is refused with a panic.
pub fn t(out: &mut String, mut f: impl FnMut() -> String) {
    let old = QUIET.with(|q| q.replace(true));
    let mut once = || catch_unwind(AssertUnwindSafe(&mut f)).unwrap_or_else(|_| "PANIC".into());
    let r = once();
    for i in 1..TIMES.with(|n| n.get()) {
        let again = once();
        if again != r {
            out.push_str(&format!("REPETITION {i} GIVES {again} AFTER "));
        }
    }
    QUIET.with(|q| q.set(old));
    out.push_str(&r);
    out.push(';');
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn fp_arith(p: &mut Pool, i: usize) -> String {
    let (_, v) = p.fp(i);
    let mut o = String::new();
    for a in v {
        for b in v.iter().skip(1) {
            let (a2, b2) = (a.to_string(), b.to_string());
            t(&mut o, || format!("{},{},{},{},{}", a + b, a - b, a * b, a / b, a == b));
            if a.to_string() != a2 || b.to_string() != b2 {
                o.push_str("OPERAND CHANGED");
            }
        }
        t(&mut o, || format!("{},{},{},{},{}", -a, 1u32 / a, a ^ 2u32, a ^ &BigInt::from(-3), a ^ &BigUint::from(77u32)));
        t(&mut o, || format!("{},{},{}", a.is_zero(), a.is_one(), a.sgn0()));
    }
    o
}
fn fp_sqrt(p: &mut Pool, i: usize) -> String {
    let (_, v) = p.fp(i);
    let mut o = String::new();
    for a in v {
        t(&mut o, || a.is_square().to_string());
        // the value of a root of a non-residue, and which root is returned, are not specified
        t(&mut o, || if a.is_square() { (a.sqrt() ^ 2u32).to_string() } else { "-".into() });
        t(&mut o, || if a.is_square() { a.sqrt().to_string() } else { a.sqrt().is_zero().to_string() });
    }
    o
}
fn f2_arith(p: &mut Pool, i: usize) -> String {
    let (_, v) = p.f2(i);
    let mut o = String::new();
    for a in v.iter().step_by(3) {
        for b in v.iter().skip(1).step_by(5) {
            t(&mut o, || format!("{},{},{},{},{}", a + b, a - b, a * b, a / b, a == b));
        }
        t(&mut o, || format!("{},{},{},{},{}", -a, 1u32 / a, a ^ 2u32, a ^ &BigInt::from(-3), a.sgn0()));
    }
    o
}
fn f2_sqrt(p: &mut Pool, i: usize) -> String {
    let (_, v) = p.f2(i);
    let mut o = String::new();
    for a in v {
        t(&mut o, || a.is_square().to_string());
        t(&mut o, || if a.is_square() { a.sqrt().to_string() } else { "-".into() });
    }
    o
}
pub fn group<K: Kind>(c: &CurveOf<K>) -> String {
    let mut o = String::new();
    let all: Vec<&K::P> = c.pts.iter().chain(&c.proj).collect();
    for a in &all {
        for b in c.proj.iter().take(3).chain(c.pts.iter().take(3)) {
            let (a2, b2) = (a.to_string(), b.to_string());
            t(&mut o, || {
                let s = K::add(a, b);
                format!("{},{},{}", hexs(&s.encode(false)), K::sub(a, b).is_zero(), **a == *b)
            });
            if a.to_string() != a2 || b.to_string() != b2 {
                o.push_str("OPERAND CHANGED");
            }
        }
    }
    o
}
pub fn scalars<K: Kind>(c: &CurveOf<K>) -> String {
    let mut o = String::new();
    for k in &c.ks {
        for q in c.proj.iter().take(2).chain(c.pts.iter().take(2)) {
            t(&mut o, || hexs(&K::mul(q, k).encode(false)));
        }
        for j in &c.ks {
            t(&mut o, || format!("{},{},{}", K::s_bin('+', k, j, 0), K::s_bin('*', k, j, 0), K::s_bin('/', k, j, 0)));
        }
        t(&mut o, || format!("{:?}{:?}", K::lr(k, 99), K::rl(k, 99)));
    }
    // a scalar of another order must be refused
    t(&mut o, || hexs(&K::mul(&c.pts[1], &K::s_new(big(2), &BigUint::from(4093u32))).encode(false)));
    o
}
pub fn codec<K: Kind>(c: &CurveOf<K>) -> String {
    let mut o = String::new();
    let mut strings: Vec<Vec<u8>> = vec![];
    for q in c.proj.iter().chain(&c.pts) {
        let (u, v) = (q.encode(false), q.encode(true));
        o.push_str(&format!("{},{};", hexs(&u), hexs(&v)));
        strings.push(v);
        strings.push(u);
    }
    strings.push(vec![]);
    strings.push(vec![0]);
    strings.push(vec![7]);
    for x in 0..20 {
        strings.push(vec![x]);
        strings.push(vec![2, x]);
        strings.push(vec![3, x]);
        strings.push(vec![4, x, 1]);
    }
    for s in &strings {
        t(&mut o, || match c.c.decode(s) {
            Ok(q) => format!("{}{}", hexs(&q.encode(false)), c.c.is_on_curve(&q)),
            Err(_) => "Err".into(),
        });
    }
    o
}
pub fn build<K: Kind>(c: &CurveOf<K>) -> String {
    let mut o = String::new();
    let f = c.c.get_field();
    for x in 0..8 {
        for y in 0..8 {
            t(&mut o, || hexs(&c.c.new_point(f.elt(big(x)), f.elt(big(y))).encode(false)));
        }
    }
    for q in c.proj.iter().chain(&c.pts) {
        // changing a copy in place
        let before = q.to_string();
        let mut r = q.clone();
        t(&mut o, || {
            K::normalize(&mut r);
            format!("{},{}", r == *q, hexs(&r.encode(true)))
        });
        if q.to_string() != before {
            o.push_str("ORIGINAL CHANGED");
        }
        let mut r2 = r.clone();
        t(&mut o, || {
            K::normalize(&mut r2);
            format!("{}", r2 == r)
        });
    }
    t(&mut o, || format!("{},{:?}", hexs(&c.c.get_generator().encode(true)), c.c.get_order()));
    o
}
pub fn map_all(f: &Fp, n: i64, m: &dyn Fn(&Elt) -> Vec<u8>) -> String {
    let mut o = String::new();
    for u in 0..n {
        t(&mut o, || hexs(&m(&f.elt(big(u)))));
    }
    o
}

pub type Op = (&'static str, fn(&mut Pool) -> String);
pub static OPS: &[Op] = &[
    ("GF(19) arithmetic", |p| fp_arith(p, 0)),
    ("GF(13) arithmetic", |p| fp_arith(p, 1)),
    ("GF(2^255-19) arithmetic", |p| fp_arith(p, 5)),
    ("GF(19) roots", |p| fp_sqrt(p, 0)),
    ("GF(13) roots", |p| fp_sqrt(p, 1)),
    ("GF(17) roots (refused)", |p| fp_sqrt(p, 2)),
    ("GF(41) roots (refused)", |p| fp_sqrt(p, 3)),
    ("GF(23) roots", |p| fp_sqrt(p, 4)),
    ("GF(2^255-19) roots", |p| fp_sqrt(p, 5)),
    ("roots in a copy and in a new object of GF(13)", |p| {
        let mut o = String::new();
        let f = p.fp(1).0.clone();
        let g = Fp::new(BigUint::from(13u32));
        for h in [f, g] {
            for x in 0..13 {
                t(&mut o, || {
                    let e = h.elt(big(x));
                    let r = e.sqrt();
                    format!("{},{}", e.is_square(), if e.is_square() { r.to_string() } else { "-".into() })
                });
            }
        }
        o
    }),
    ("mixed fields (refused)", |p| {
        let mut o = String::new();
        let a = p.fp(0).1.clone();
        let b = p.fp(1).1.clone();
        for i in 0..4 {
            t(&mut o, || (&a[i] + &b[i]).to_string());
            t(&mut o, || (&a[i] - &b[i]).to_string());
            t(&mut o, || (&a[i] * &b[i]).to_string());
            t(&mut o, || (&a[i] / &b[i]).to_string());
            t(&mut o, || (a[i] == b[i]).to_string());
        }
        o
    }),
    ("numerals and bytes", |p| {
        let mut o = String::new();
        for i in [0, 1, 5] {
            let f = p.fp(i).0.clone();
            for s in ["", "0", "-1", "0x1f", "-0b101", "0o17", "zz", "12345678901234567890123", "0x", "-", "1,2"] {
                t(&mut o, || FromFactory::<&str>::from(&f, s).to_string());
            }
            t(&mut o, || f.from(-1i64).to_string());
            t(&mut o, || f.from(255u8).to_string());
            for b in [vec![], vec![1, 2, 3], vec![255; 40]] {
                t(&mut o, || f.from_bytes_be(&b).unwrap().to_string());
                t(&mut o, || hexs(&f.from_bytes_le(&b).unwrap().to_bytes_le()));
            }
        }
        let f = p.f2(0).0.clone();
        for s in ["1,2", "3", "", "-1,0x10"] {
            t(&mut o, || FromFactory::<&str>::from(&f, s).to_string());
        }
        for b in [vec![], vec![1, 2], vec![1, 2, 3]] {
            t(&mut o, || f.from_bytes_be(&b).map(|x| x.to_string()).unwrap_or("Err".into()));
        }
        o
    }),
    ("changing copies of elements in place", |p| {
        let mut o = String::new();
        for i in [0, 1] {
            let f = p.fp(i).0.clone();
            let x = f.elt(big(5));
            let mut y = x.clone();
            y.set_zero();
            let mut z = x.clone();
            z.set_one();
            o.push_str(&format!("{x},{y},{z},{},{},", f.zero(), f.one()));
            t(&mut o, || format!("{},{}", &x + &z, &x * &y));
        }
        let f = p.f2(0).0.clone();
        let x = f.from("3,4");
        let mut y = x.clone();
        y.set_zero();
        let mut z = x.clone();
        z.set_one();
        o.push_str(&format!("{x},{y},{z},{},{}", f.zero(), f.one()));
        o
    }),
    ("GF(7^2) arithmetic", |p| f2_arith(p, 0)),
    ("GF(7^2) roots", |p| f2_sqrt(p, 0)),
    ("GF(11^2) roots", |p| f2_sqrt(p, 1)),
    ("W0 group", |p| group(p.w(0))),
    ("W0 scalars", |p| scalars(p.w(0))),
    ("W0 octet strings", |p| codec(p.w(0))),
    ("W0 points", |p| build(p.w(0))),
    ("W1 group", |p| group(p.w(1))),
    ("W1 scalars", |p| scalars(p.w(1))),
    ("W2 octet strings", |p| codec(p.w(2))),
    ("mixed curves (refused)", |p| {
        let mut o = String::new();
        let a = p.w(0).pts.clone();
        let b = p.w(1).pts.clone();
        for i in 0..3 {
            t(&mut o, || hexs(&W::add(&a[i], &b[i]).encode(true)));
            t(&mut o, || hexs(&W::sub(&a[i], &b[i]).encode(true)));
            t(&mut o, || (a[i] == b[i]).to_string());
        }
        let c = p.w(0).c.clone();
        for q in b.iter().take(4) {
            t(&mut o, || c.is_on_curve(q).to_string());
        }
        o
    }),
    ("E0 group", |p| group(p.e(0))),
    ("E0 scalars", |p| scalars(p.e(0))),
    ("E0 octet strings", |p| codec(p.e(0))),
    ("E1 points and octet strings", |p| build(p.e(1)) + &codec(p.e(1))),
    ("M0 group", |p| group(p.m(0))),
    ("M0 scalars", |p| scalars(p.m(0))),
    ("M0 octet strings", |p| codec(p.m(0))),
    ("M1 points and group", |p| build(p.m(1)) + &group(p.m(1))),
    ("P256", |p| {
        let mut o = String::new();
        let c = p.p256.get_or_insert_with(|| {
            let c = W::named("P256").unwrap();
            let g = c.get_generator();
            let pts = vec![c.identity(), g.clone()];
            CurveOf { proj: vec![W::add(&g, &g)], pts, ks: vec![c.new_scalar(big(5))], c }
        });
        t(&mut o, || hexs(&W::mul(&c.proj[0], &c.ks[0]).encode(true)));
        t(&mut o, || c.c.decode(&c.pts[1].encode(true)).map(|q| q == c.pts[1]).unwrap_or(false).to_string());
        t(&mut o, || c.c.decode(&[2; 33]).is_ok().to_string());
        t(&mut o, || (W::named("P256").unwrap() == c.c).to_string());
        t(&mut o, || hexs(&W::named("SECP256K1").unwrap().get_generator().encode(true)));
        o
    }),
    ("simplified SWU", |p| {
        let t = toys_once();
        let c = p.w(0).c.clone();
        let f = c.get_field();
        let m = p.sswu.get_or_insert_with(|| weierstrass::SSWU::new(c, fe(&f, t.sswu.1)));
        map_all(&f, 19, &|u| m.map(u).encode(false))
    }),
    ("Shallue-van de Woestijne", |p| {
        let t = toys_once();
        let c = p.w(0).c.clone();
        let f = c.get_field();
        let m = p.svdw.get_or_insert_with(|| weierstrass::SVDW::new(c, fe(&f, t.svdw)));
        map_all(&f, 19, &|u| m.map(u).encode(false))
    }),
    ("Elligator 2", |p| {
        let t = toys_once();
        let c = p.m(0).c.clone();
        let f = c.get_field();
        let m = p.ell2.get_or_insert_with(|| montgomery::Ell2::new(c, fe(&f, t.ell2)));
        map_all(&f, 19, &|u| m.map(u).encode(false))
    }),
    ("map constructors", |p| {
        let mut o = String::new();
        let c = p.w(1).c.clone();
        let d = p.m(1).c.clone();
        for z in 0..13 {
            t(&mut o, || {
                weierstrass::SSWU::new(c.clone(), fe(&c.get_field(), z));
                "sswu".into()
            });
            t(&mut o, || {
                weierstrass::SVDW::new(c.clone(), fe(&c.get_field(), z));
                "svdw".into()
            });
            t(&mut o, || {
                montgomery::Ell2::new(d.clone(), fe(&d.get_field(), z));
                "ell2".into()
            });
        }
        o
    }),
    ("edwards25519 and curve25519", |p| {
        let mut o = String::new();
        let m = p.map25519.get_or_insert_with(|| Box::new(instances::edwards25519_to_curve25519()));
        let (e0, e1) = (m.domain(), m.codomain());
        t(&mut o, || hexs(&m.push(e0.get_generator()).encode(false)));
        t(&mut o, || hexs(&m.pull(e1.get_generator()).encode(false)));
        t(&mut o, || hexs(&m.push(e0.identity()).encode(false)));
        t(&mut o, || hexs(&m.pull(e1.identity()).encode(false)));
        o
    }),
    ("Elligator 2 on edwards25519", |p| {
        let mut o = String::new();
        let m = p.ell2_ed.get_or_insert_with(|| {
            let r: DynMap = Box::new(instances::edwards25519_to_curve25519());
            let e = r.domain();
            let z = e.get_field().elt(big(2));
            edwards::Ell2::new(e, z, Some(r))
        });
        let f = Fp::new(MODULI[5].parse::<BigUint>().unwrap());
        for u in [0, 1, -3] {
            t(&mut o, || hexs(&m.map(&f.elt(big(u))).encode(false)));
        }
        o
    }),
    ("3-isogeny of secp256k1 and its map", |p| {
        let mut o = String::new();
        let i = p.iso.get_or_insert_with(|| Box::new(instances::get_isogeny_secp256k1()));
        let e0 = i.domain();
        t(&mut o, || hexs(&i.push(e0.get_generator()).encode(false)));
        t(&mut o, || hexs(&i.push(e0.identity()).encode(false)));
        let m = p.sswu_k1.get_or_insert_with(|| {
            let iso: DynIso = Box::new(instances::get_isogeny_secp256k1());
            let e = iso.codomain();
            let z = e.get_field().elt(big(-11));
            weierstrass::SSWUAB0::new(e, z, iso)
        });
        let f = e0.get_field();
        for u in [0, 2] {
            t(&mut o, || hexs(&m.map(&f.elt(big(u))).encode(false)));
        }
        o
    }),
    ("dropping every structure", |p| {
        *p = Pool::default();
        String::new()
    }),
];

fn one_elt(p: &mut Pool, i: usize, f: impl Fn(&Fp) -> String) -> String {
    let f0 = p.fp(i).0.clone();
    let mut o = String::new();
    t(&mut o, || f(&f0));
    o
}
fn one_pt<K: Kind>(c: &CurveOf<K>, f: impl Fn(&CurveOf<K>) -> String) -> String {
    let mut o = String::new();
    t(&mut o, || f(c));
    o
}
fn two(f: &Fp) -> BigUint {
    f.get_modulus().to_biguint().unwrap()
}
/// Single calls with operands that look alike in different structures.
pub static MICRO: &[Op] = &[
    ("GF(19): 1/5", |p| one_elt(p, 0, |f| (1u32 / &fe(f, 5)).to_string())),
    ("GF(13): 1/5", |p| one_elt(p, 1, |f| (1u32 / &fe(f, 5)).to_string())),
    ("GF(19): 5^77", |p| one_elt(p, 0, |f| (&fe(f, 5) ^ &BigUint::from(77u32)).to_string())),
    ("GF(13): 5^77", |p| one_elt(p, 1, |f| (&fe(f, 5) ^ &BigInt::from(77)).to_string())),
    ("GF(23): root of 4", |p| one_elt(p, 4, |f| fe(f, 4).sqrt().to_string())),
    ("GF(13): root of 4", |p| one_elt(p, 1, |f| fe(f, 4).sqrt().to_string())),
    ("GF(13): root of 3", |p| one_elt(p, 1, |f| fe(f, 3).sqrt().to_string())),
    ("GF(17): root of 4 (refused)", |p| one_elt(p, 2, |f| fe(f, 4).sqrt().to_string())),
    ("GF(13): is 4, is 5 a square", |p| one_elt(p, 1, |f| format!("{}{}", fe(f, 4).is_square(), fe(f, 5).is_square()))),
    ("GF(23): is 4, is 5 a square", |p| one_elt(p, 4, |f| format!("{}{}", fe(f, 4).is_square(), fe(f, 5).is_square()))),
    ("GF(13) with GF(19) (refused)", |p| {
        let g = p.fp(0).0.clone();
        one_elt(p, 1, |f| (fe(f, 5) * fe(&g, 5)).to_string())
    }),
    ("GF(19): size, p-1 in bytes", |p| one_elt(p, 0, |f| format!("{}{}", two(f), hexs(&f.elt(big(-1)).to_bytes_be())))),
    ("GF(7^2): root of (1,2)^2", |p| {
        let f = p.f2(0).0.clone();
        let x = f.from("1,2");
        let mut o = String::new();
        t(&mut o, || (&x * &x).sqrt().to_string());
        o
    }),
    ("GF(11^2): root of (1,2)^2, 1/(1,2)", |p| {
        let f = p.f2(1).0.clone();
        let x = f.from("1,2");
        let mut o = String::new();
        t(&mut o, || format!("{},{}", (&x * &x).sqrt(), 1u32 / &x));
        o
    }),
    ("W0: P+P", |p| one_pt(p.w(0), |c| hexs(&W::add(&c.pts[1], &c.pts[1]).encode(false)))),
    ("W1: P+P", |p| one_pt(p.w(1), |c| hexs(&W::add(&c.pts[1], &c.pts[1]).encode(false)))),
    ("W0: 5P", |p| one_pt(p.w(0), |c| hexs(&W::mul(&c.pts[1], &c.ks[3]).encode(false)))),
    ("W1: 5P", |p| one_pt(p.w(1), |c| hexs(&W::mul(&c.pts[1], &c.ks[3]).encode(false)))),
    ("W0: a compressed point", |p| one_pt(p.w(0), |c| c.c.decode(&[3, 1]).map(|q| hexs(&q.encode(false))).unwrap_or("Err".into()))),
    ("W1: a compressed point", |p| one_pt(p.w(1), |c| c.c.decode(&[3, 1]).map(|q| hexs(&q.encode(false))).unwrap_or("Err".into()))),
    ("E0: P+Q", |p| one_pt(p.e(0), |c| hexs(&E::add(&c.pts[1], &c.pts[2]).encode(false)))),
    ("M0: P+Q", |p| one_pt(p.m(0), |c| hexs(&M::add(&c.pts[1], &c.pts[2]).encode(false)))),
    ("E0: a point, normalized", |p| {
        one_pt(p.e(0), |c| {
            let mut q = c.proj[1].clone();
            E::normalize(&mut q);
            format!("{}{}", q == c.proj[1], hexs(&q.encode(false)))
        })
    }),
    ("dropping every structure ", |p| {
        *p = Pool::default();
        String::new()
    }),
];

fn named_curve<K: Kind>(name: &str) -> String {
    let mut o = String::new();
    let c = K::named(name).unwrap();
    let f = c.get_field();
    t(&mut o, || format!("{c},{},{},{},{}", f.get_modulus(), f.size_bytes(), c.get_order(), c.get_cofactor()));
    let g = c.get_generator();
    t(&mut o, || format!("{},{}", hexs(&g.encode(true)), hexs(&c.identity().encode(true))));
    t(&mut o, || hexs(&K::add(&K::add(&g, &g), &g).encode(false)));
    t(&mut o, || hexs(&K::mul(&g, &c.new_scalar(big(-1))).encode(true)));
    t(&mut o, || (K::named(name).unwrap() == c).to_string());
    t(&mut o, || c.decode(&g.encode(true)).map(|q| q == g).unwrap_or(false).to_string());
    o
}
fn f2_octets(p: u32) -> String {
    let f = Fp2::new(BigUint::from(p));
    let mut o = String::new();
    for s in ["0,0", "1,2", "3,300", "-1,5"] {
        t(&mut o, || {
            let x = f.from(s);
            let (b, l) = (x.to_bytes_be(), x.to_bytes_le());
            format!("{}{}{}{}", hexs(&b), hexs(&l), f.from_bytes_be(&b).unwrap() == x, f.from_bytes_le(&l).unwrap() == x)
        });
    }
    o
}
/// Every ownership form of the operators.
fn all_forms<K: Kind>(c: &CurveOf<K>) -> String {
    let mut o = String::new();
    let show = |v: &[K::P]| v.iter().map(|q| hexs(&q.encode(false))).collect::<Vec<_>>().join(",");
    for a in c.proj.iter().take(3).chain(c.pts.iter().take(2)) {
        for b in [&c.proj[1], &c.pts[0], &c.pts[1]] {
            t(&mut o, || format!("{}{}", show(&K::add4(a, b)), show(&K::sub4(a, b))));
        }
        t(&mut o, || show(&K::neg2(a)));
        t(&mut o, || format!("{:?}", K::two_torsion(a)));
        for k in c.ks.iter().skip(2) {
            t(&mut o, || show(&K::mul7(a, k)));
        }
    }
    let text = |v: &[K::S]| v.iter().map(|q| q.to_string()).collect::<Vec<_>>().join(",");
    for a in &c.ks {
        for b in &c.ks {
            t(&mut o, || format!("{},{},{}", text(&K::s_add(a, b)), text(&K::s_sub(a, b)), text(&K::s_mul(a, b))));
            t(&mut o, || format!("{},{:?}", text(&K::s_div(a, b)), K::s_eq(a, b)));
        }
        t(&mut o, || format!("{},{}", text(&K::s_neg(a)), K::s_inv_of(1, a)));
        t(&mut o, || K::s_inv_of(3, a).to_string());
        t(&mut o, || format!("{}{}", hexs(&a.to_bytes_be()), hexs(&a.to_bytes_le())));
    }
    o
}
/// Calls on named instances and on structures that are built in the call itself.
pub static NAMED: &[Op] = &[
    ("P256 ", |_| named_curve::<W>("P256")),
    ("P384", |_| named_curve::<W>("P384")),
    ("P521", |_| named_curve::<W>("P521")),
    ("SECP256K1", |_| named_curve::<W>("SECP256K1")),
    ("SECP256K1_3ISO", |_| named_curve::<W>("SECP256K1_3ISO")),
    ("BLS12381G1", |_| named_curve::<W>("BLS12381G1")),
    ("BLS12381G1_11ISO", |_| named_curve::<W>("BLS12381G1_11ISO")),
    ("EDWARDS25519", |_| named_curve::<E>("EDWARDS25519")),
    ("EDWARDS448", |_| named_curve::<E>("EDWARDS448")),
    ("CURVE25519", |_| named_curve::<M>("CURVE25519")),
    ("CURVE448", |_| named_curve::<M>("CURVE448")),
    ("edwards448 and curve448", |p| {
        let mut o = String::new();
        let m = p.map448.get_or_insert_with(|| Box::new(instances::edwards448_to_curve448()));
        let (e0, e1) = (m.domain(), m.codomain());
        let (g0, g1) = (e0.get_generator(), e1.get_generator());
        t(&mut o, || hexs(&m.push(g0.clone()).encode(false)));
        t(&mut o, || hexs(&m.push(E::add(&g0, &g0)).encode(false)));
        t(&mut o, || hexs(&m.pull(g1.clone()).encode(false)));
        t(&mut o, || hexs(&m.pull(M::add(&g1, &g1)).encode(false)));
        t(&mut o, || hexs(&m.push(e0.identity()).encode(false)));
        t(&mut o, || hexs(&m.pull(e1.identity()).encode(false)));
        let f = e0.get_field();
        t(&mut o, || hexs(&m.push(e0.new_point(f.zero(), f.elt(big(-1)))).encode(false)));
        t(&mut o, || hexs(&m.push(e0.new_point(f.one(), f.zero())).encode(false)));
        t(&mut o, || hexs(&m.pull(e1.new_point(f.zero(), f.zero())).encode(false)));
        o
    }),
    ("torsion through the 25519 maps", |p| {
        let mut o = String::new();
        let m = p.map25519.get_or_insert_with(|| Box::new(instances::edwards25519_to_curve25519()));
        let (e0, e1) = (m.domain(), m.codomain());
        let f = e0.get_field();
        let t2 = e0.new_point(f.zero(), f.elt(big(-1)));
        let g0 = e0.get_generator();
        t(&mut o, || hexs(&m.push(t2.clone()).encode(false)));
        t(&mut o, || hexs(&m.push(E::add(&t2, &g0)).encode(false)));
        t(&mut o, || hexs(&m.pull(e1.new_point(f.zero(), f.zero())).encode(false)));
        t(&mut o, || e0.decode(&[0; 32]).map(|q| hexs(&m.push(q).encode(false))).unwrap_or("Err".into()));
        o
    }),
    ("11-isogeny of BLS12-381 and its map", |p| {
        let mut o = String::new();
        let i = p.iso_bls.get_or_insert_with(|| Box::new(instances::get_isogeny_bls12381g1()));
        let e0 = i.domain();
        let g = e0.get_generator();
        t(&mut o, || hexs(&i.push(g.clone()).encode(false)));
        t(&mut o, || hexs(&i.push(W::add(&g, &g)).encode(false)));
        t(&mut o, || hexs(&i.push(e0.identity()).encode(false)));
        let m = p.sswu_bls.get_or_insert_with(|| {
            let iso: DynIso = Box::new(instances::get_isogeny_bls12381g1());
            let e = iso.codomain();
            let z = e.get_field().elt(big(11));
            weierstrass::SSWUAB0::new(e, z, iso)
        });
        t(&mut o, || hexs(&m.map(&e0.get_field().elt(big(2))).encode(false)));
        o
    }),
    ("GF(103^2) octets", |_| f2_octets(103)),
    ("GF(263^2) octets", |_| f2_octets(263)),
    ("roots in new fields", |_| {
        let mut o = String::new();
        for p in [29u32, 31, 37, 43] {
            let f = Fp::new(BigUint::from(p));
            t(&mut o, || (f.elt(big(4)).sqrt() ^ 2u32).to_string());
            t(&mut o, || f.size_bytes().to_string());
        }
        o
    }),
    ("new curves", |_| {
        let mut o = String::new();
        let ts = toys_once();
        for x in &ts.w {
            let c = x.build::<W>();
            t(&mut o, || format!("{c},{}", hexs(&W::add(&c.get_generator(), &c.get_generator()).encode(false))));
        }
        for x in &ts.e {
            let c = x.build::<E>();
            t(&mut o, || format!("{c},{}", hexs(&E::add(&c.get_generator(), &c.get_generator()).encode(false))));
        }
        for x in &ts.m {
            let c = x.build::<M>();
            t(&mut o, || format!("{c},{}", hexs(&M::add(&c.get_generator(), &c.get_generator()).encode(false))));
        }
        o
    }),
    ("W0 ownership forms", |p| all_forms(p.w(0))),
    ("E0 ownership forms", |p| all_forms(p.e(0))),
    ("M0 ownership forms", |p| all_forms(p.m(0))),
    ("field ownership forms and shorthands", |p| {
        let mut o = String::new();
        let f = p.fp(1).0.clone();
        let f2 = p.f2(0).0.clone();
        let show = |v: &[Elt]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let show2 = |v: &[Fp2Elt]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        for i in [0, 1, 5, 12] {
            for j in [0, 2, 7] {
                let (a, b) = (f.elt(big(i)), f.elt(big(j)));
                t(&mut o, || format!("{},{},{}", show(&crate::forms!(a, +, b)), show(&crate::forms!(a, -, b)), show(&crate::forms!(a, *, b))));
                t(&mut o, || show(&crate::forms!(a, /, b)));
                t(&mut o, || Elt::cmov(&a, &b, i == 1).to_string());
                let (a, b) = (f2.from(format!("{i},{j}").as_str()), f2.from(format!("{j},1").as_str()));
                t(&mut o, || format!("{},{},{}", show2(&crate::forms!(a, +, b)), show2(&crate::forms!(a, -, b)), show2(&crate::forms!(a, *, b))));
                t(&mut o, || show2(&crate::forms!(a, /, b)));
                t(&mut o, || Fp2Elt::cmov(&a, &b, i == 1).to_string());
            }
            let a = f.elt(big(i));
            t(&mut o, || format!("{},{},{}", -&a, -a.clone(), &a ^ 2u32));
            t(&mut o, || format!("{},{}", a.clone() ^ -1i32, 1u32 / &a));
            t(&mut o, || (&a ^ 3u32).to_string());
            t(&mut o, || (2u32 / &a).to_string());
            let a = f2.from(format!("{i},3").as_str());
            t(&mut o, || format!("{},{},{}", -&a, -a.clone(), &a ^ 2u32));
            t(&mut o, || (1u32 / &a).to_string());
            t(&mut o, || (&a ^ 3u32).to_string());
        }
        o
    }),
    ("scalars to bytes", |p| {
        let mut o = String::new();
        let r = |i: u32| BigUint::from([251u32, 257, 65537][i as usize]);
        for i in 0..3 {
            t(&mut o, || hexs(&W::s_new(big(-2), &r(i)).to_bytes_be()));
            t(&mut o, || hexs(&E::s_new(big(-2), &r(i)).to_bytes_le()));
            t(&mut o, || hexs(&M::s_inv(&M::s_new(big(-2), &r(i))).to_bytes_be()));
        }
        let c = &p.w(0).c;
        t(&mut o, || hexs(&c.new_scalar(big(-1)).to_bytes_le()));
        o
    }),
    ("powers in GF(19) and GF(7^2)", |p| {
        let mut o = String::new();
        let f = p.fp(0).0.clone();
        for e in [-19i64, -1, 0, 1, 18, 36] {
            for x in [0, 1, 5] {
                t(&mut o, || (&f.elt(big(x)) ^ &big(e)).to_string());
            }
        }
        let f = p.f2(0).0.clone();
        for e in [-49i64, -1, 0, 1, 48, 96] {
            for x in ["0,0", "0,1", "3,4"] {
                t(&mut o, || (&f.from(x) ^ &big(e)).to_string());
            }
        }
        o
    }),
];

/// The three alphabets, numbered one after the other.
pub fn op(i: usize) -> &'static Op {
    let (a, b) = (OPS.len(), OPS.len() + MICRO.len());
    if i < a {
        &OPS[i]
    } else if i < b {
        &MICRO[i - a]
    } else {
        &NAMED[i - b]
    }
}
pub fn ops() -> usize {
    OPS.len() + MICRO.len() + NAMED.len()
}

/// Runs one operation, and checks that the structures found in the pool are left as they were.
pub fn step(p: &mut Pool, i: usize) -> String {
    let drops = op(i).0.starts_with("dropping");
    let before = p.snapshot();
    let mut o = String::new();
    let times = TIMES.with(|n| n.replace(1));
    t(&mut o, || {
        TIMES.with(|n| n.set(times));
        op(i).1(p)
    });
    TIMES.with(|n| n.set(times));
    if !drops {
        let after = p.snapshot();
        // new structures may have been added: the old texts are a subsequence of the new ones
        let mut it = after.iter();
        if !before.iter().all(|b| it.any(|a| a == b)) {
            o.push_str(" A STRUCTURE CHANGED");
        }
    }
    o
}
