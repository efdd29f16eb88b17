//! C22 and C23: the rational maps and isogenies between named curves.

use crate::api::*;
use crate::engine::{Ctx, L};
use crate::isodata as d;
use crate::nt::{self, big};
use crate::refcurve::*;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{EcPoint, EllipticCurve, Encode, Isogeny, RationalMap};
use redox_ecc::instances;

pub type P = Pt<BigInt>;

// ------------------------------------------------------------------------------------- reference maps

/// (x,y) -> (xn(x)/xd(x), y*yn(x)/yd(x)); the identity and the poles go to the identity.
pub struct RefIso {
    p: BigInt,
    c: [Vec<BigInt>; 4],
}
impl RefIso {
    fn new(p: &BigInt, t: [&[&str]; 4]) -> RefIso {
        RefIso { p: p.clone(), c: t.map(|v| v.iter().map(|s| nt::hex(s)).collect()) }
    }
    pub fn secp(p: &BigInt) -> RefIso {
        RefIso::new(p, [d::SECP_X_NUM, d::SECP_X_DEN, d::SECP_Y_NUM, d::SECP_Y_DEN])
    }
    pub fn bls(p: &BigInt) -> RefIso {
        RefIso::new(p, [d::BLS_X_NUM, d::BLS_X_DEN, d::BLS_Y_NUM, d::BLS_Y_DEN])
    }
    pub fn apply(&self, q: &P) -> P {
        let (x, y) = q.as_ref()?;
        let ev = |c: &Vec<BigInt>| c.iter().rev().fold(BigInt::zero(), |a, k| (a * x + k) % &self.p);
        let v: Vec<BigInt> = self.c.iter().map(ev).collect();
        if v[1].is_zero() {
            assert!(v[3].is_zero());
            return None;
        }
        Some((&v[0] * nt::inv(&v[1], &self.p) % &self.p, y * &v[2] % &self.p * nt::inv(&v[3], &self.p) % &self.p))
    }
}

/// A homomorphism given by an affine formula that is undefined on finitely many points: there it is determined by
/// f(P) = f(P+Q) - f(Q).
fn extend(e0: &Ref<ZB>, e1: &Ref<ZB>, f: impl Fn(&(BigInt, BigInt)) -> Option<(BigInt, BigInt)>, p: &P, q: &P) -> P {
    if *p == e0.id() {
        return e1.id();
    }
    if let Some(v) = p.as_ref().and_then(&f) {
        assert!(e1.on(&v.0, &v.1));
        return Some(v);
    }
    let mut t = q.clone();
    for _ in 0..20 {
        let s = e0.add(p, &t);
        if let (Some(a), Some(b)) = (s.as_ref().and_then(&f), t.as_ref().and_then(&f)) {
            return e1.add(&Some(a), &e1.neg(&Some(b)));
        }
        t = e0.add(&t, q);
    }
    panic!("no auxiliary point");
}

/// Edwards (e) to Montgomery (m) and back, after RFC 7748, section 4.
pub struct RefMap {
    pub e: Ref<ZB>,
    pub m: Ref<ZB>,
    ge: P,
    gm: P,
    /// the birational map has a scaling factor fixed by the generators; None for the 4-isogeny
    c: Option<BigInt>,
}
impl RefMap {
    pub fn new(e: &Named<E>, m: &Named<M>, birational: bool) -> RefMap {
        let k = &e.rf.ar;
        let (ge, gm) = (e.base(), m.base());
        let c = birational.then(|| {
            let ((x, _), (u, v)) = (ge.clone().unwrap(), gm.clone().unwrap());
            let c = k.div(&k.mul(&v, &x), &u);
            assert!(k.sq(&c) == k.of_big(&big(-486664)));
            c
        });
        RefMap { e: e.rf.clone(), m: m.rf.clone(), ge, gm, c }
    }
    pub fn push(&self, p: &P) -> P {
        let k = &self.e.ar;
        let f = |(x, y): &(BigInt, BigInt)| -> Option<(BigInt, BigInt)> {
            let one = k.c(1);
            match &self.c {
                Some(c) => {
                    if k.z(x) || *y == one {
                        return None;
                    }
                    let u = k.div(&k.add(&one, y), &k.sub(&one, y));
                    let v = k.div(&k.mul(c, &u), x);
                    Some((u, v))
                }
                None => {
                    if k.z(x) {
                        return None;
                    }
                    let (x2, y2) = (k.sq(x), k.sq(y));
                    let u = k.div(&y2, &x2);
                    let v = k.div(&k.mul(&k.sub(&k.sub(&k.c(2), &x2), &y2), y), &k.mul(&x2, x));
                    Some((u, v))
                }
            }
        };
        extend(&self.e, &self.m, f, p, &self.ge)
    }
    pub fn pull(&self, p: &P) -> P {
        let k = &self.e.ar;
        let f = |(u, v): &(BigInt, BigInt)| -> Option<(BigInt, BigInt)> {
            let one = k.c(1);
            match &self.c {
                Some(c) => {
                    if k.z(v) || k.z(&k.add(u, &one)) {
                        return None;
                    }
                    Some((k.div(&k.mul(c, u), v), k.div(&k.sub(u, &one), &k.add(u, &one))))
                }
                None => {
                    let (u2, v2) = (k.sq(u), k.sq(v));
                    let (u3, u4, u5) = (k.mul(&u2, u), k.sq(&u2), k.mul(&k.sq(&u2), u));
                    let sum = |v: &[(i64, &BigInt)]| v.iter().fold(k.c(0), |a, (n, x)| k.add(&a, &k.mul(&k.c(*n), x)));
                    // x = 4v(u^2-1) / (u^4-2u^2+4v^2+1), y = -(u^5-2u^3-4uv^2+u) / (u^5-2u^2v^2-2u^3-2v^2+u)
                    let xd = sum(&[(1, &u4), (-2, &u2), (4, &v2), (1, &one)]);
                    let yd = sum(&[(1, &u5), (-2, &k.mul(&u2, &v2)), (-2, &u3), (-2, &v2), (1, u)]);
                    if k.z(&xd) || k.z(&yd) {
                        return None;
                    }
                    let x = k.div(&k.mul(&k.mul(&k.c(4), v), &k.sub(&u2, &one)), &xd);
                    let y = k.neg(&k.div(&sum(&[(1, &u5), (-2, &u3), (-4, &k.mul(u, &v2)), (1, u)]), &yd));
                    Some((x, y))
                }
            }
        };
        extend(&self.m, &self.e, f, p, &self.gm)
    }
}

// ------------------------------------------------------------------------------------ representatives

/// Several internal representations of one point, each obtained through the public API.
pub fn reps<K: Kind>(l: &mut L, n: &Named<K>, q: &P, level: u32) -> Vec<(String, K::P)> {
    let a = n.pt(q);
    let g = n.pt(&n.base());
    let mut v: Vec<(String, K::P)> = vec![("affine".into(), a.clone())];
    let mut add = |l: &mut L, name: &str, f: &dyn Fn() -> K::P| {
        if let Some(r) = l.run(|| format!("rep {name} of {q:?}"), f) {
            v.push((name.into(), r));
        }
    };
    add(l, "P+G-G", &|| K::sub(&K::add(&a, &g), &g));
    add(l, "-(-P)", &|| K::neg(&K::neg(&a)));
    add(l, "O+P", &|| K::add(&n.c.identity(), &a));
    add(l, "P+P-P", &|| K::sub(&K::add(&a, &a), &a));
    add(l, "normalized(P+G-G)", &|| {
        let mut r = K::sub(&K::add(&a, &g), &g);
        K::normalize(&mut r);
        r
    });
    if level > 0 {
        add(l, "P+O", &|| K::add(&a, &n.c.identity()));
        add(l, "G-(G-P)", &|| K::sub(&g, &K::sub(&g, &a)));
        add(l, "(P+2G-G)-G", &|| K::sub(&K::sub(&K::add(&a, &K::add(&g, &g)), &g), &g));
        add(l, "1*P", &|| K::mul(&a, &n.c.new_scalar(big(1))));
        add(l, "-(-(P-G)-G)", &|| K::neg(&K::sub(&K::neg(&K::sub(&a, &g)), &g)));
    }
    v
}

fn is<K: Kind>(n: &Named<K>, got: &K::P, want: &P) -> Result<(), String> {
    same::<_, K>(&n.rf, got, &n.pt(want), &n.pt(&n.rf.add(want, &n.base())), want)?;
    if !n.c.is_on_curve(got) {
        return Err("not on the curve".into());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C22

fn index<K: Kind>(name: &str) -> usize {
    rows::<K>().iter().position(|r| r[0] == name).unwrap()
}

type DynMap = Box<dyn RationalMap<E0 = redox_ecc::edwards::Curve, E1 = redox_ecc::montgomery::Curve>>;
pub fn dyn_map(birational: bool) -> DynMap {
    if birational {
        Box::new(instances::edwards25519_to_curve25519())
    } else {
        Box::new(instances::edwards448_to_curve448())
    }
}
pub fn map_setting(birational: bool) -> (Named<E>, Named<M>, RefMap) {
    let (ne, nm) = if birational { ("EDWARDS25519", "CURVE25519") } else { ("EDWARDS448", "CURVE448") };
    let (e, m) = (named::<E>(index::<E>(ne)), named::<M>(index::<M>(nm)));
    let r = RefMap::new(&e, &m, birational);
    (e, m, r)
}
pub fn iso_setting(which: usize) -> (Named<W>, Named<W>, RefIso) {
    let (a, b) = [("SECP256K1_3ISO", "SECP256K1"), ("BLS12381G1_11ISO", "BLS12381G1")][which];
    let (n0, n1) = (named::<W>(index::<W>(a)), named::<W>(index::<W>(b)));
    let p = n0.rf.ar.p();
    let r = if which == 0 { RefIso::secp(&p) } else { RefIso::bls(&p) };
    (n0, n1, r)
}
pub fn dyn_iso(which: usize) -> Box<dyn Isogeny<E0 = redox_ecc::weierstrass::Curve, E1 = redox_ecc::weierstrass::Curve>> {
    if which == 0 {
        Box::new(instances::get_isogeny_secp256k1())
    } else {
        Box::new(instances::get_isogeny_bls12381g1())
    }
}

pub fn c22(ctx: &Ctx) {
    let level = 2;
    ctx.bound("both pairs of curves, both directions: identity, all torsion points and their translates, multiples of the generators and their opposites, points of small coordinates; every point in 6 (thorough 11) internal representations; against the affine formulas of RFC 7748 extended to exceptional points by additivity; all pairs of the alphabet for additivity");
    let js: Vec<(String, (bool, bool, usize))> = [(true, "25519"), (false, "448")]
        .iter()
        .flat_map(|(b, n)| {
            [true, false].iter().flat_map(move |push| (0..4).map(move |i| (format!("{n}/{}/{i}", if *push { "push" } else { "pull" }), (*b, *push, i))))
        })
        .collect();
    let parts = 4;
    ctx.par("maps", js, |l, &(bi, push, part)| {
        let (e, m, rm) = map_setting(bi);
        let map = dyn_map(bi);
        l.ok(map.domain() == e.c && map.codomain() == m.c, || "curves".into(), || "wrong domain or codomain".into());
        let mult = if bi { BigInt::one() } else { big(4) };
        let lv = if l.ctx.quick() { 0 } else { 1 };
        if push {
            let pts = e.alphabet(level);
            let gi = is(&m, &map.push(e.pt(&e.base())), &m.base());
            l.ok(gi.is_ok(), || "generator".into(), || gi.clone().unwrap_err());
            let gi = l.run(|| "get_generator".into(), || map.push(e.c.get_generator()) == m.c.get_generator());
            l.ok(gi == Some(true), || "get_generator".into(), || "the generator is not mapped to the generator".into());
            for i in (part..pts.len()).step_by(parts) {
                if l.stopped() {
                    return;
                }
                let want = rm.push(&pts[i]);
                let back = e.rf.mul(&mult, &pts[i]);
                l.outcome(&want);
                for (name, r) in reps(l, &e, &pts[i], lv) {
                    l.state();
                    let k = |t: &str| format!("{t} {:?} as {name}", pts[i]);
                    let Some(q) = l.run(|| k("push"), || map.push(r.clone())) else { continue };
                    if let Some(c) = l.run(|| k("push"), || is(&m, &q, &want)) {
                        l.ok(c.is_ok(), || k("push"), || c.clone().unwrap_err());
                    }
                    if let Some(c) = l.run(|| k("pull after push"), || is(&e, &map.pull(q.clone()), &back)) {
                        l.ok(c.is_ok(), || k("pull after push"), || c.clone().unwrap_err());
                    }
                }
                for q in &pts {
                    l.state();
                    let (a, b) = (e.pt(&pts[i]), e.pt(q));
                    let k = || format!("push({:?})+push({:?})", pts[i], q);
                    let r = l.run(k, || (map.push(E::add(&a, &b)), M::add(&map.push(a.clone()), &map.push(b.clone())), map.push(E::neg(&a)), M::neg(&map.push(a.clone()))));
                    if let Some((x, y, s, t)) = r {
                        l.calls(4);
                        l.ok(x == y && y == x && s == t, k, || format!("{} is not {}", show(&x), show(&y)));
                    }
                }
            }
        } else {
            let pts = m.alphabet(level);
            for i in (part..pts.len()).step_by(parts) {
                if l.stopped() {
                    return;
                }
                let want = rm.pull(&pts[i]);
                let back = m.rf.mul(&mult, &pts[i]);
                l.outcome(&want);
                for (name, r) in reps(l, &m, &pts[i], lv) {
                    l.state();
                    let k = |t: &str| format!("{t} {:?} as {name}", pts[i]);
                    let Some(q) = l.run(|| k("pull"), || map.pull(r.clone())) else { continue };
                    if let Some(c) = l.run(|| k("pull"), || is(&e, &q, &want)) {
                        l.ok(c.is_ok(), || k("pull"), || c.clone().unwrap_err());
                    }
                    if let Some(c) = l.run(|| k("push after pull"), || is(&m, &map.push(q.clone()), &back)) {
                        l.ok(c.is_ok(), || k("push after pull"), || c.clone().unwrap_err());
                    }
                    // what comes out is a full-fledged point: it can be added
                    let g = e.pt(&e.base());
                    let w2 = e.rf.add(&want, &e.base());
                    if let Some(c) = l.run(|| k("add after pull"), || is(&e, &E::add(&q, &g), &w2)) {
                        l.ok(c.is_ok(), || k("add after pull"), || c.clone().unwrap_err());
                    }
                }
                for q in &pts {
                    l.state();
                    let (a, b) = (m.pt(&pts[i]), m.pt(q));
                    let k = || format!("pull({:?})+pull({:?})", pts[i], q);
                    let r = l.run(k, || (map.pull(M::add(&a, &b)), E::add(&map.pull(a.clone()), &map.pull(b.clone())), map.pull(M::neg(&a)), E::neg(&map.pull(a.clone()))));
                    if let Some((x, y, s, t)) = r {
                        l.calls(4);
                        l.ok(x == y && y == x && s == t, k, || format!("{} is not {}", show(&x), show(&y)));
                    }
                }
            }
        }
        l.sample(|| "representatives and pairs mapped".into());
    });
}

// ------------------------------------------------------------------------------------------------ C23

/// The order of the group of BLS12-381 G1 is r * h, h = 3 * 11^2 * 10177^2 * 859267^2 * 52437899^2.
pub fn bls_h() -> BigInt {
    let sq = |n: i64| big(n) * big(n);
    big(3) * sq(11) * sq(10177) * sq(859267) * sq(52437899)
}

/// Points for the isogeny: the alphabet, points of small order and their translates.
fn iso_points(n: &Named<W>, which: usize, level: u32) -> Vec<P> {
    let mut v = n.alphabet(level);
    if which == 1 {
        let h = bls_h();
        let order = &h * &n.r;
        let lifted = n.lifted(if level == 0 { 3 } else { 6 });
        for q in lifted {
            assert!(n.rf.mul(&order, &q).is_none());
            for (l, e) in [(3i64, 1u32), (11, 2), (10177, 2), (859267, 2), (52437899, 2)] {
                let mut c = order.clone();
                for _ in 0..e {
                    c /= l;
                }
                // a point whose order is a power of l, and its last non-trivial multiple
                let mut t = n.rf.mul(&c, &q);
                while t.is_some() {
                    v.push(t.clone());
                    v.push(n.rf.neg(&t));
                    v.push(n.rf.add(&t, &n.base()));
                    if l == 11 {
                        let mut s = t.clone();
                        for _ in 0..10 {
                            v.push(s.clone());
                            s = n.rf.add(&s, &t);
                        }
                    }
                    t = n.rf.mul(&big(l), &t);
                }
            }
        }
    }
    let mut out: Vec<P> = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

pub fn c23(ctx: &Ctx) {
    let level = 2;
    ctx.bound("both isogenies: identity, multiples of a base point and their opposites, points of small abscissa, for the 11-isogeny also points of every small order dividing the cofactor (3, 11, 121, 10177, 859267, 52437899) with opposites, multiples and translates, kernel included; every point in 6 (thorough 11) internal representations; against the published rational functions evaluated independently; pairs for additivity");
    let parts = 8;
    let js: Vec<(String, (usize, usize))> =
        ["secp256k1", "bls12381g1"].iter().enumerate().flat_map(|(w, n)| (0..parts).map(move |i| (format!("{n}/{i}"), (w, i)))).collect();
    ctx.par("isogenies", js, |l, &(which, part)| {
        let (n0, n1, rf) = iso_setting(which);
        let iso = dyn_iso(which);
        l.ok(iso.domain() == n0.c && iso.codomain() == n1.c, || "curves".into(), || "wrong domain or codomain".into());
        let pts = iso_points(&n0, which, level);
        let lv = if l.ctx.quick() { 0 } else { 1 };
        let mut kernel = 0;
        for i in (part..pts.len()).step_by(parts) {
            if l.stopped() {
                return;
            }
            let want = rf.apply(&pts[i]);
            kernel += (want.is_none() && pts[i].is_some()) as u32;
            l.outcome(&want);
            for (name, r) in reps(l, &n0, &pts[i], lv) {
                l.state();
                let k = || format!("push {:?} as {name}", pts[i]);
                if let Some(c) = l.run(k, || {
                    let q = iso.push(r.clone());
                    if q.is_zero() != want.is_none() || (q.encode(false) == vec![0]) != want.is_none() {
                        return Err("the identity is confused with another point".into());
                    }
                    is(&n1, &q, &want)
                }) {
                    l.ok(c.is_ok(), k, || c.clone().unwrap_err());
                }
            }
            let step = if l.ctx.quick() { 3 } else { 1 };
            for j in ((i % step)..pts.len()).step_by(step) {
                let q = &pts[j];
                l.state();
                let (a, b) = (n0.pt(&pts[i]), n0.pt(q));
                let k = || format!("push({:?})+push({:?})", pts[i], q);
                let r = l.run(k, || (iso.push(W::add(&a, &b)), W::add(&iso.push(a.clone()), &iso.push(b.clone())), iso.push(W::neg(&a)), W::neg(&iso.push(a.clone()))));
                if let Some((x, y, s, t)) = r {
                    l.calls(4);
                    l.ok(x == y && y == x && s == t, k, || format!("{} is not {}", show(&x), show(&y)));
                    // also against the reference
                    if j % 7 == i % 7 {
                        let w = n1.pt(&rf.apply(&n0.rf.add(&pts[i], q)));
                        l.ok(x == w && w == x, k, || format!("{} is not {}", show(&x), show(&w)));
                    }
                }
            }
        }
        l.outcome(&("kernel", kernel, which));
        l.sample(|| format!("{} points, {kernel} of this part in the kernel", pts.len()));
    });
}
