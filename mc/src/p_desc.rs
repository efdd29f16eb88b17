//! C28: a curve is the one its parameters describe. C29: printed forms name the values.

use crate::api::*;
use crate::engine::{Ctx, L};
use crate::nt::{self, big};
use crate::p_curve::closure;
use crate::p_field::{digits, field, fp2, jobs, mk2, pjobs, prefix, str_elt, table, with_named};
use crate::refcurve::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use redox_ecc::ellipticcurve::{EllipticCurve, Encode};
use redox_ecc::primefield::Fp;
use redox_ecc::quadraticfield::Fp2;

type J = (u64, u64, u64, u64);

// ---------------------------------------------------------------------------------------------- C28

/// Ways to write an element of GF(p): reduced or not, of either sign, in the four radices.
fn notations(v: &BigInt, p: &BigInt) -> Vec<String> {
    let num = |n: &BigInt, r: u32, upper: bool, zeros: &str| format!("{}{}{zeros}{}", if n.is_negative() { "-" } else { "" }, prefix(r), digits(&n.abs(), r, upper));
    let far: BigInt = v - p * (BigInt::one() << 70u32);
    let near: BigInt = v - p;
    let mut out = vec![
        num(&(v + p), 10, false, ""),
        num(&near, 10, false, ""),
        num(&(v + p * 3), 16, true, ""),
        num(&near, 16, false, ""),
        num(v, 16, false, "0"),
        num(v, 8, false, ""),
        num(&(v - p * 2), 8, false, ""),
        num(v, 2, false, "00"),
        num(&near, 2, false, ""),
        num(v, 10, false, "000"),
        num(&far, 10, false, ""),
        num(&far, 16, false, ""),
    ];
    out.dedup();
    out
}

/// The curve is the one of the canonical description: its parameters, its equation, its points.
fn same_curve<K: Kind, A: Ar>(l: &mut L, rf: &Ref<A>, c: &K::C, base: &K::C, r: &BigInt, h: &BigInt, g: &Pt<A::E>, pts: &[Pt<A::E>], key: impl Fn(&str) -> String) {
    let p = rf.ar.p();
    let a = l.run(|| key("parameters"), || (c.get_field().get_modulus(), BigInt::from(c.get_order()), c.get_cofactor(), c.get_field() == base.get_field()));
    if let Some(a) = a {
        l.ok(a == (p.clone(), r.clone(), h.clone(), true), || key("parameters"), || format!("modulus, order and cofactor are {a:?}"));
        l.outcome(&(a.0, a.1, a.2));
    }
    if let Some(e) = l.run(|| key("generator"), || c.get_generator().encode(false)) {
        l.ok(e == rf.enc(g, false), || key("generator"), || format!("generator {e:02x?}"));
    }
    if let Some(e) = l.run(|| key("identity"), || c.identity().encode(false)) {
        l.ok(e == rf.enc(&rf.id(), false), || key("identity"), || format!("identity {e:02x?}"));
    }
    if let Some(e) = l.run(|| key("equal"), || (c == base, base == c, *c == c.clone(), c != base)) {
        l.ok(e == (true, true, true, false), || key("equal"), || format!("equality with the canonical description: {e:?}"));
    }
    for k in [big(-1), r - 1, r.clone(), r + 1] {
        let w = nt::red(&k, r);
        if let Some(s) = l.run(|| key("scalar"), || c.new_scalar(k.clone()).to_string()) {
            l.ok(s == w.to_string(), || key("scalar"), || format!("scalar of {k} is {s}"));
        }
    }
    for pt in pts {
        let k = || key(&format!("point{pt:?}"));
        let res = l.run(k, || {
            let (a, b) = (rf.point::<K>(c, pt), rf.point::<K>(base, pt));
            let g = base.get_generator();
            let ok = c.is_on_curve(&b) && base.is_on_curve(&a) && a == b && b == a;
            (ok, K::sub(&K::add(&a, &g), &b) == c.get_generator(), a.encode(false))
        });
        if let Some((a, b, e)) = res {
            l.ok(a && b && e == rf.enc(pt, false), k, || format!("{a} {b} {e:02x?}"));
        }
    }
}

fn c28_model<K: Kind>(ctx: &Ctx) {
    let ps: Vec<u64> = match (K::MODEL, ctx.quick()) {
        (Model::W, true) => vec![5, 7, 11, 13],
        (_, true) => vec![5, 7, 11],
        (Model::W, false) => vec![5, 7, 11, 13, 17, 19],
        (_, false) => vec![3, 5, 7, 11, 13, 17],
    };
    ctx.bound(format!("{}: every supported curve over GF(p), p in {ps:?}: every coefficient and generator coordinate in 12 other notations (reduced or not, either sign, four radices, leading zeros), one at a time and all pairs of notations of the two coefficients; equation: every pair of coordinates", K::NAME));
    ctx.par(&format!("{}-notations", K::NAME), toys(K::MODEL, &ps, |_, _| true), |l, j: &J| {
        let t = toy(K::MODEL, j);
        let base = t.build::<K>();
        if t.n() < 2 {
            return;
        }
        let bp = BigInt::from(t.p);
        let (r, h) = (BigInt::from(t.r), BigInt::from(t.h));
        let txt = t.text();
        // the equation of the canonical description, on every pair of coordinates
        let f = base.get_field();
        for x in 0..t.p {
            for y in 0..t.p {
                l.state();
                let key = || format!("equation/{x},{y}");
                if t.rf.on(&x, &y) {
                    l.run(key, || base.new_point(fe(&f, x), fe(&f, y)));
                } else {
                    l.refused(key, || base.new_point(fe(&f, x), fe(&f, y)));
                }
            }
        }
        let not = |s: &str| notations(&nt::dec(s), &bp);
        let mut texts: Vec<Text> = vec![txt.clone()];
        let (na, nb) = (not(&txt.a), not(&txt.b));
        for a in &na {
            texts.push(Text { a: a.clone(), ..txt.clone() });
            for b in &nb {
                texts.push(Text { a: a.clone(), b: b.clone(), ..txt.clone() });
            }
        }
        for b in &nb {
            texts.push(Text { b: b.clone(), ..txt.clone() });
        }
        for (x, y) in not(&txt.gx).into_iter().zip(not(&txt.gy).into_iter().rev()) {
            texts.push(Text { gx: x.clone(), ..txt.clone() });
            texts.push(Text { gy: y.clone(), ..txt.clone() });
            texts.push(Text { gx: x, gy: y, ..txt.clone() });
        }
        if K::MODEL == Model::M {
            for s in not(&txt.s) {
                texts.push(Text { s, ..txt.clone() });
            }
        }
        texts.push(Text { p: format!("00{}", txt.p), r: format!("0{}", txt.r), h: format!("000{}", txt.h), ..txt.clone() });
        // orders and cofactors of any length: the numbers given are the numbers announced
        let one = BigInt::one();
        let nums: Vec<BigInt> = [3u32, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 130, 256, 521].iter().flat_map(|b| [(&one << *b) - 1, (&one << *b) + 1, &one << *b]).collect();
        for (i, n) in nums.iter().enumerate() {
            let m = &nums[(i * 5 + 7) % nums.len()];
            let odd = n | &one;
            for (r1, h1) in [(odd.clone(), h.clone()), (r.clone(), n.clone()), (odd.clone(), m.clone())] {
                l.state();
                let x = Text { r: r1.to_string(), h: h1.to_string(), ..txt.clone() };
                let key = |o: &str| format!("r={r1},h={h1}/{o}");
                let Some(c) = l.run(|| key("build"), || K::build(&x)) else { continue };
                same_curve::<K, _>(l, &t.rf, &c, &K::build(&x), &r1, &h1, &t.pts[t.gen], &[], key);
                let same = r1 == r && h1 == h;
                if let Some(e) = l.run(|| key("other"), || c == base) {
                    l.ok(e == same, || key("other"), || format!("equality with the curve of order {r} and cofactor {h}: {e}"));
                }
                if let Some(b) = l.run(|| key("length"), || redox_ecc::ops::Serialize::to_bytes_be(&c.new_scalar(big(-1)))) {
                    l.ok(BigInt::from_bytes_be(num_bigint::Sign::Plus, &b) == &r1 - 1 && b.len() as u64 == (r1.bits() + 7) / 8, || key("length"), || format!("{b:02x?}"));
                }
            }
        }
        for (i, x) in texts.iter().enumerate() {
            l.state();
            if l.stopped() {
                return;
            }
            let key = |o: &str| format!("p={},a={},b={},s={},gx={},gy={}/{o}", x.p, x.a, x.b, x.s, x.gx, x.gy);
            let Some(c) = l.run(|| key("build"), || K::build(x)) else { continue };
            // all points for the canonical text and single changes, some for the pairs
            let step = if i % 13 == 0 { 1 } else { 5 };
            let pts: Vec<_> = t.pts.iter().skip(i % step).step_by(step).cloned().collect();
            same_curve::<K, _>(l, &t.rf, &c, &base, &r, &h, &t.pts[t.gen], &pts, key);
        }
        l.sample(|| format!("{} descriptions of one curve", texts.len()));
    });
    ctx.bound(format!("{}: the named curves rebuilt from the published constants and a curve of known order for each field size of curves.rs (6..530 bits), each in 12 notations", K::NAME));
    let js: Vec<_> = named_jobs::<K>().into_iter().chain(wide_jobs::<K>(1)).collect();
    ctx.par(&format!("{}-wide", K::NAME), js, |l, &i| {
        let n = named::<K>(i);
        let p = n.rf.ar.p();
        let g = if n.g.is_some() { n.g.clone() } else { n.base() };
        let (gx, gy) = g.clone().unwrap();
        let txt = |a: String, b: String, gx: String, gy: String, s: String| Text { p: p.to_string(), a, b, s, r: n.r.to_string(), h: n.h.to_string(), gx, gy };
        let s = if i >= WIDE { nt::hex(wide_rows::<K>()[i - WIDE].1[3]) } else { big(1) };
        let base = K::build(&txt(n.rf.a.to_string(), n.rf.b.to_string(), gx.to_string(), gy.to_string(), s.to_string()));
        let mut pts: Vec<Pt<BigInt>> = n.lifted(3);
        pts.push(n.rf.id());
        pts.push(g.clone());
        let all: Vec<Vec<String>> = [&n.rf.a, &n.rf.b, &gx, &gy, &s].iter().map(|v| notations(v, &p)).collect();
        for k in 0..all.iter().map(|v| v.len()).min().unwrap() {
            l.state();
            let at = |j: usize| all[j][(k + j) % all[j].len()].clone();
            let x = txt(at(0), at(1), at(2), at(3), at(4));
            let key = |o: &str| format!("a={},b={},gx={},gy={}/{o}", x.a, x.b, x.gx, x.gy);
            let Some(c) = l.run(|| key("build"), || K::build(&x)) else { continue };
            // without a parameter s of its own the model promises no sums
            let ops: &[Pt<BigInt>] = if K::MODEL == Model::M && i < WIDE { &[] } else { &pts };
            same_curve::<K, _>(l, &n.rf, &c, &base, &n.r, &n.h, &g, ops, key);
            let f = c.get_field();
            for q in pts.iter().flatten() {
                let key = || format!("equation/{},{}", q.0, q.1);
                if n.rf.on(&q.0, &q.1) {
                    l.run(key, || c.new_point(n.rf.elt(&f, &q.0), n.rf.elt(&f, &q.1)));
                    let y = n.rf.ar.add(&q.1, &big(1));
                    if !n.rf.on(&q.0, &y) {
                        l.refused(key, || c.new_point(n.rf.elt(&f, &q.0), n.rf.elt(&f, &y)));
                    }
                }
            }
        }
    });
}

/// Curves of order p+1 with a small subgroup and a cofactor of nearly the size of the field.
fn c28_cofactors<K: Kind>(ctx: &Ctx) {
    let qs: Vec<_> = table(ctx, 5).into_iter().filter(|q| q.class % 4 == 3 && q.bits >= 8).collect();
    ctx.bound(format!("{}: supersingular curves with a subgroup of small prime order and a cofactor of the size of the field, for the table primes that are 3 mod 4", K::NAME));
    ctx.par(&format!("{}-cofactors", K::NAME), jobs(qs), |l, q| {
        let p = &q.p;
        let n: BigInt = p + 1;
        let Some(r) = nt::primes(3, 1000).into_iter().find(|r| (&n % *r).is_zero()) else { return };
        let r = BigInt::from(r);
        let h = &n / &r;
        let ar = ZB(p.clone());
        let (a, b) = if K::MODEL == Model::E { (big(4), p - 4) } else { (big(0), big(5)) };
        let rf = Ref { ar, model: K::MODEL, a, b };
        let mut g = rf.id();
        let mut v = 2;
        while g == rf.id() {
            if let Some(q) = rf.lift(&big(v)) {
                g = rf.mul(&h, &Some(q));
            }
            v += 1;
        }
        assert!(rf.mul(&r, &g) == rf.id());
        let (gx, gy) = g.clone().unwrap();
        l.state();
        let x = Text { p: p.to_string(), a: rf.a.to_string(), b: rf.b.to_string(), s: "1".into(), r: r.to_string(), h: h.to_string(), gx: gx.to_string(), gy: gy.to_string() };
        let key = |o: &str| format!("r={r},h={h}/{o}");
        let Some(c) = l.run(|| key("build"), || K::build(&x)) else { return };
        let again = K::build(&x);
        // sums in the Montgomery model need a parameter s that this family does not provide
        let pts = if K::MODEL == Model::E { vec![rf.id(), g.clone(), rf.add(&g, &g)] } else { vec![] };
        same_curve::<K, _>(l, &rf, &c, &again, &r, &h, &g, &pts, key);
        // the same numbers with another cofactor or order are another curve
        for (o, y) in [
            ("h", Text { h: (&h + &h).to_string(), ..x.clone() }),
            ("h64", Text { h: (&h + (BigInt::one() << 64u32)).to_string(), ..x.clone() }),
            ("r64", Text { r: (&r + (BigInt::one() << 64u32)).to_string(), ..x.clone() }),
        ] {
            if let Some(e) = l.run(|| key(o), || K::build(&y) == c) {
                l.ok(!e, || key(o), || "equal to a curve with other parameters".into());
            }
        }
    });
}

pub fn c28(ctx: &Ctx) {
    c28_model::<W>(ctx);
    c28_model::<E>(ctx);
    c28_model::<M>(ctx);
    c28_cofactors::<E>(ctx);
    c28_cofactors::<M>(ctx);
    odd_cofactors(ctx);
}

/// Weierstrass curves of odd order with a cofactor (`curves.rs`).
fn odd_cofactors(ctx: &Ctx) {
    ctx.bound("weierstrass: curves of odd composite order over fields of 16..521 bits, subgroup of small prime order");
    let js = crate::curves::WH.iter().map(|(b, r)| (format!("{b}bits"), *r)).collect();
    ctx.par("weierstrass-cofactors", js, |l, row: &[&str; 8]| {
        let v: Vec<BigInt> = row.iter().map(|t| nt::hex(t)).collect();
        let rf = Ref { ar: ZB(v[0].clone()), model: Model::W, a: v[1].clone(), b: v[2].clone() };
        let d: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        let x = Text { p: d[0].clone(), a: d[1].clone(), b: d[2].clone(), s: d[3].clone(), r: d[4].clone(), h: d[5].clone(), gx: d[6].clone(), gy: d[7].clone() };
        let g = Some((v[6].clone(), v[7].clone()));
        l.state();
        let key = |o: &str| format!("r={},h={}/{o}", d[4], d[5]);
        let Some(c) = l.run(|| key("build"), || W::build(&x)) else { return };
        let again = W::build(&x);
        let mut pts = vec![rf.id()];
        for _ in 0..6 {
            pts.push(rf.add(pts.last().unwrap(), &g));
        }
        same_curve::<W, _>(l, &rf, &c, &again, &v[4], &v[5], &g, &pts, key);
    });
}

// ---------------------------------------------------------------------------------------------- C29

/// The numerals of a printed point or curve, by name: "x: 5", "y: 7".
fn lines(s: &str) -> Vec<(String, BigInt)> {
    s.lines()
        .filter_map(|t| {
            let (k, v) = t.split_once(':')?;
            let v = v.trim();
            if v.is_empty() || !v.chars().all(|c| c.is_ascii_digit()) || (v.len() > 1 && v.starts_with('0')) {
                return Some((k.trim().to_string(), big(-1)));
            }
            Some((k.trim().to_string(), nt::dec(v)))
        })
        .collect()
}
fn value(v: &[(String, BigInt)], k: &str) -> Option<BigInt> {
    v.iter().find(|x| x.0 == k).map(|x| x.1.clone())
}

/// The printed coordinates are reduced and describe the point.
fn names<A: Ar>(rf: &Ref<A>, text: &str, pt: &Pt<A::E>) -> bool {
    let k = &rf.ar;
    let v = lines(text);
    let want = if rf.model == Model::E { 4 } else { 3 };
    if v.len() != want || v.iter().any(|(_, n)| n.is_negative() || *n >= k.p()) {
        return false;
    }
    let (Some(x), Some(y), Some(z)) = (value(&v, "x"), value(&v, "y"), value(&v, "z")) else { return false };
    let (x, y, z) = (k.of_big(&x), k.of_big(&y), k.of_big(&z));
    if rf.model == Model::E {
        let Some(t) = value(&v, "t") else { return false };
        if k.mul(&k.of_big(&t), &z) != k.mul(&x, &y) {
            return false;
        }
    }
    match pt {
        None => k.z(&z) && k.z(&x) && !k.z(&y),
        Some((a, b)) => !k.z(&z) && k.mul(a, &z) == x && k.mul(b, &z) == y,
    }
}

fn c29_points<K: Kind>(ctx: &Ctx) {
    let ps: Vec<u64> = match (K::MODEL, ctx.quick()) {
        (Model::E, true) => vec![3, 5, 7, 11],
        (_, true) => vec![5, 7, 11],
        (Model::M, false) => vec![5, 7, 11, 13],
        (_, false) => vec![5, 7, 11, 13, 17],
    };
    ctx.bound(format!("{}: every reachable projective representative of every point of every supported curve over GF(p), p in {ps:?}, and the printed coefficients of the curves", K::NAME));
    ctx.par(&format!("{}-points", K::NAME), toys(K::MODEL, &ps, |_, _| true), |l, j: &J| {
        let t = toy(K::MODEL, j);
        let c = t.build::<K>();
        let canon = t.points::<K>(&c);
        if canon.len() < 2 {
            return;
        }
        let reps = closure::<K>(l, &t, &c, &canon, 4 * t.n() * t.p as usize);
        for (i, a) in &reps {
            l.state();
            let k = || format!("{:?}", t.pts[*i]);
            if let Some(s) = l.run(k, || a.to_string()) {
                l.ok(names(&t.rf, &s, &t.pts[*i]), k, || format!("printed as {}", s.replace('\n', " ")));
                l.outcome(&s);
            }
            let res = l.run(k, || {
                let mut b = a.clone();
                K::normalize(&mut b);
                b.to_string()
            });
            if let Some(s) = res {
                let v = lines(&s);
                let z = if t.pts[*i].is_none() { big(0) } else { big(1) };
                l.ok(names(&t.rf, &s, &t.pts[*i]) && value(&v, "z") == Some(z), k, || format!("printed after normalization as {}", s.replace('\n', " ")));
            }
        }
        curve_text::<K, _>(l, &t.rf, &c);
    });
    ctx.bound(format!("{}: named curves and curves over fields of 6..530 bits{}: the alphabet of points, affine and computed", K::NAME, ctx.by(" (every fifth size)", "")));
    let js: Vec<_> = named_jobs::<K>().into_iter().chain(wide_jobs::<K>(ctx.by(5, 1))).collect();
    let level = ctx.by(0, 1);
    ctx.par(&format!("{}-named", K::NAME), js, |l, &i| {
        let n = named::<K>(i);
        curve_text::<K, _>(l, &n.rf, &n.c);
        let g = n.pt(&n.base());
        for p in n.alphabet(level) {
            l.state();
            let k = || format!("{p:?}");
            if let Some(v) = l.run(k, || {
                let a = n.pt(&p);
                let b = K::sub(&K::add(&a, &g), &g);
                let mut d = b.clone();
                K::normalize(&mut d);
                [a.to_string(), b.to_string(), d.to_string()]
            }) {
                for s in &v {
                    l.ok(names(&n.rf, s, &p), k, || format!("printed as {}", s.replace('\n', " ")));
                }
                l.outcome(&v);
            }
        }
    });
}
fn curve_text<K: Kind, A: Ar>(l: &mut L, rf: &Ref<A>, c: &K::C) {
    let k = || "curve".to_string();
    if let Some(s) = l.run(k, || c.to_string()) {
        let v = lines(&s);
        let b = if K::MODEL == Model::E { "d" } else { "b" };
        let good = value(&v, "a") == Some(rf.ar.to_big(&rf.a)) && value(&v, b) == Some(rf.ar.to_big(&rf.b));
        l.ok(good, k, || format!("printed as {}", s.replace('\n', " ")));
    }
}

fn c29_elt(l: &mut L, f: &Fp, n: &BigInt, p: &BigInt) {
    l.state();
    let w = nt::red(n, p);
    let k = || format!("{n}");
    let res = l.run(k, || {
        let e = f.elt(n.clone());
        let s = e.to_string();
        let back: Elt = str_elt(f, &s);
        let mut o = e.clone();
        o.set_one_();
        let mut z = e.clone();
        z.set_zero_();
        (s, format!("{e:}"), back == e, (-(-&e)).to_string(), o.to_string(), z.to_string(), format!("{}", &e + f.zero()))
    });
    if let Some(r) = res {
        let t = w.to_string();
        l.ok(r == (t.clone(), t.clone(), true, t.clone(), "1".into(), "0".into(), t.clone()), k, || format!("printed as {r:?}"));
        l.outcome(&r.0);
    }
}
trait InPlace {
    fn set_one_(&mut self);
    fn set_zero_(&mut self);
}
impl<T: num_traits::Zero + num_traits::One> InPlace for T {
    fn set_one_(&mut self) {
        num_traits::One::set_one(self)
    }
    fn set_zero_(&mut self) {
        num_traits::Zero::set_zero(self)
    }
}
fn c29_elt2(l: &mut L, f: &Fp2, a: &BigInt, b: &BigInt) {
    l.state();
    let k = || format!("{a},{b}");
    let res = l.run(k, || {
        let e = mk2(f, &(a.clone(), b.clone()));
        let back: redox_ecc::quadraticfield::Fp2Elt = str_elt(f, &format!("{a},{b}"));
        let mut o = e.clone();
        o.set_one_();
        let mut z = e.clone();
        z.set_zero_();
        (e.to_string(), back.to_string(), (-(-&e)).to_string(), o.to_string(), z.to_string())
    });
    if let Some(r) = res {
        let t = format!("{a}+i*{b}");
        l.ok(r == (t.clone(), t.clone(), t.clone(), "1+i*0".into(), "0+i*0".into()), k, || format!("printed as {r:?}"));
        l.outcome(&r.0);
    }
}

pub fn c29(ctx: &Ctx) {
    let hi = ctx.by(127, 1021);
    ctx.bound(format!("every element of GF(p) for p <= {hi}, of GF(p)[i] for p = 3 mod 4 up to {}, every scalar modulo every odd prime up to {hi}, in the three models", ctx.by(43, 103)));
    ctx.par("elements", pjobs(nt::primes(3, hi)), |l, &p| {
        let f = fp(p);
        let bp = BigInt::from(p);
        for n in 0..p as i64 {
            c29_elt(l, &f, &big(n), &bp);
        }
        for n in nt::integers(&bp, 1) {
            c29_elt(l, &f, &n, &bp);
        }
        l.ok(f.to_string() == format!("GF({p})"), || "field".into(), || f.to_string());
        scalars(l, &(0..p).map(BigInt::from).collect::<Vec<_>>(), &bp);
    });
    ctx.par("quadratic", pjobs(nt::primes(3, ctx.by(43, 103)).into_iter().filter(|p| p % 4 == 3).collect()), |l, &p| {
        let f = fp2(p);
        for a in 0..p {
            for b in 0..p {
                c29_elt2(l, &f, &BigInt::from(a), &BigInt::from(b));
            }
        }
        l.ok(f.to_string() == format!("GF({p})^2"), || "field".into(), || f.to_string());
    });
    ctx.bound("the alphabet of boundary values (word boundaries, halves, patterns) for one prime per bit length 3..530 (all table rows in thorough), the named moduli and orders 24 primes of special form and primes of 640 to 2203 bits: elements, pairs of coordinates, scalars");
    ctx.par("large", jobs(with_named(table(ctx, 4))), |l, q| {
        let f = field(&q.p);
        let al = nt::alphabet(&q.p, 2);
        for n in &al {
            c29_elt(l, &f, n, &q.p);
        }
        // a value for every length of the numeral
        let mut t = BigInt::one();
        while t < q.p {
            for d in [-1i64, 0] {
                c29_elt(l, &f, &(&t + d), &q.p);
            }
            t *= 10;
        }
        l.ok(f.to_string() == format!("GF({})", q.p), || "field".into(), || f.to_string());
        scalars(l, &al, &q.p);
        if q.class % 4 == 3 {
            let f = Fp2::new(nt::ubig(&q.p));
            for (i, a) in al.iter().enumerate() {
                c29_elt2(l, &f, a, &al[(i * 7 + 3) % al.len()]);
            }
            l.ok(f.to_string() == format!("GF({})^2", q.p), || "field2".into(), || f.to_string());
        }
    });
    c29_points::<W>(ctx);
    c29_points::<E>(ctx);
    c29_points::<M>(ctx);
    ctx.bound("the names of the 11 identifiers");
    ctx.par("names", vec![("names".to_string(), 0)], |l, _| {
        use redox_ecc::instances::*;
        let got = [
            P256.to_string(),
            P384.to_string(),
            P521.to_string(),
            SECP256K1.to_string(),
            SECP256K1_3ISO.to_string(),
            BLS12381G1.to_string(),
            BLS12381G1_11ISO.to_string(),
            EDWARDS25519.to_string(),
            EDWARDS448.to_string(),
            CURVE25519.to_string(),
            CURVE448.to_string(),
        ];
        let want = ["P256", "P384", "P521", "secp256k1", "secp256k1_3iso", "bls12381_g1", "bls12381_g1_11iso", "edwards25519", "edwards448", "curve25519", "curve448"];
        for (g, w) in got.iter().zip(want) {
            l.state();
            l.ok(g == w, || w.to_string(), || format!("printed as {g}"));
        }
    });
}

fn scalars(l: &mut L, ns: &[BigInt], r: &BigInt) {
    fn one<K: Kind>(l: &mut L, n: &BigInt, r: &BigInt) {
        l.state();
        let k = || format!("{}:{n}", K::NAME);
        let w = nt::red(n, r).to_string();
        if let Some(v) = l.run(k, || {
            let s = K::s_new(n.clone(), &nt::ubig(r));
            let [a, b] = K::s_neg(&K::s_neg(&s)[0]);
            [s.to_string(), a.to_string(), b.to_string()]
        }) {
            l.ok(v.iter().all(|s| *s == w), k, || format!("printed as {v:?}"));
            l.outcome(&v[0]);
        }
    }
    for n in ns {
        one::<W>(l, n, r);
        one::<E>(l, n, r);
        one::<M>(l, n, r);
    }
}

// ---------------------------------------------------------------------------------------------- C30

/// What a string without `+`, `_` and inner minus signs denotes: an integer, or nothing.
fn numeral(s: &str) -> Option<BigInt> {
    if s.is_empty() {
        return Some(big(0));
    }
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let (radix, t) = [("0x", 16u32), ("0o", 8), ("0b", 2)].iter().find_map(|(x, r)| t.strip_prefix(x).map(|t| (*r, t))).unwrap_or((10, t));
    if t.is_empty() {
        return None;
    }
    let mut v = big(0);
    for c in t.chars() {
        v = v * radix + c.to_digit(radix)?;
    }
    Some(if neg { -v } else { v })
}
fn numeral2(s: &str) -> Option<(BigInt, BigInt)> {
    let (a, b) = s.split_once(',')?;
    Some((numeral(a)?, numeral(b)?))
}
/// Signs after the first character of a numeral are outside the statement.
fn plain(s: &str) -> bool {
    s.split(',').all(|t| !t.get(1..).unwrap_or("").contains('-'))
}
fn c30_str(l: &mut L, f: &Fp, f2: Option<&Fp2>, p: &BigInt, s: &str) {
    l.state();
    if !plain(s) {
        return;
    }
    let k = || format!("{s:?}");
    match numeral(s) {
        Some(n) => {
            let w = nt::red(&n, p);
            if let Some(e) = l.run(k, || -> Elt { str_elt(f, s) }) {
                l.ok(e == f.elt(w.clone()), k, || format!("denotes {w}, got {e}"));
                l.outcome(&w);
            }
        }
        None => l.refused(k, || -> Elt { str_elt(f, s) }),
    }
    let Some(f2) = f2 else { return };
    let k = || format!("quadratic:{s:?}");
    match numeral2(s) {
        Some((a, b)) => {
            let w = (nt::red(&a, p), nt::red(&b, p));
            if let Some(e) = l.run(k, || -> redox_ecc::quadraticfield::Fp2Elt { str_elt(f2, s) }) {
                l.ok(e == mk2(f2, &w), k, || format!("denotes {w:?}, got {e}"));
            }
        }
        None => l.refused(k, || -> redox_ecc::quadraticfield::Fp2Elt { str_elt(f2, s) }),
    }
}
/// What follows a refusal is as before.
fn usable(l: &mut L, f: &Fp, p: &BigInt) {
    for (s, n) in [("-1", p - 1), ("0x10", nt::red(&big(16), p)), ("7", nt::red(&big(7), p))] {
        let k = || format!("after:{s}");
        if let Some(e) = l.run(k, || -> Elt { str_elt(f, s) }) {
            l.ok(e == f.elt(n.clone()), k, || format!("got {e}"));
        }
    }
}
const CHARS: [&str; 16] = ["0", "1", "-", "x", "b", "o", "7", "8", "9", "a", "F", "g", " ", ",", ".", "\u{e9}"];

fn c30_descriptions<K: Kind>(ctx: &Ctx) {
    let ps: Vec<u64> = ctx.by(vec![5, 7, 11, 13], vec![5, 7, 11, 13, 17, 19]);
    ctx.bound(format!("{}: every supported curve over GF(p), p in {ps:?}: each of its parameters replaced by each of 31 malformed strings; every pair of generator coordinates", K::NAME));
    ctx.par(&format!("{}-descriptions", K::NAME), toys(K::MODEL, &ps, |_, _| true), |l, j: &J| {
        let t = toy(K::MODEL, j);
        if t.n() < 2 {
            return;
        }
        let txt = t.text();
        let bad = [
            "-", "0x", "-0x", "0b", "0o", "0b2", "0b102", "0o8", "0o178", "0xg", "0x1G", "1a", "a1", "f", "0X1", "0B1", "1x", "x1", " 1", "1 ", "1 2", "1.0", "1,0", ",", "1e1", "\n", "1\n", "\u{661}", "1\u{e9}", "\0", "1\0",
        ];
        for b in bad {
            l.state();
            let fields: [(&str, fn(&mut Text) -> &mut String); 8] = [("p", |x| &mut x.p), ("a", |x| &mut x.a), ("b", |x| &mut x.b), ("s", |x| &mut x.s), ("r", |x| &mut x.r), ("h", |x| &mut x.h), ("gx", |x| &mut x.gx), ("gy", |x| &mut x.gy)];
            for (n, at) in fields {
                if n == "s" && K::MODEL != Model::M {
                    continue;
                }
                let mut x = txt.clone();
                *at(&mut x) = b.to_string();
                l.refused(|| format!("{n}={b:?}"), || K::build(&x));
            }
        }
        for (n, b) in [("p", ""), ("r", ""), ("h", ""), ("p", "-7"), ("r", "-1"), ("h", "-1"), ("h", "-0x1")] {
            let mut x = txt.clone();
            *(match n {
                "p" => &mut x.p,
                "r" => &mut x.r,
                _ => &mut x.h,
            }) = b.to_string();
            l.refused(|| format!("{n}={b:?}"), || K::build(&x));
        }
        // a generator that is not on the curve never becomes a point
        for gx in 0..t.p {
            for gy in 0..t.p {
                l.state();
                let x = Text { gx: gx.to_string(), gy: gy.to_string(), ..txt.clone() };
                let k = || format!("generator={gx},{gy}");
                let point = || K::build(&x).get_generator().encode(false);
                if t.rf.on(&gx, &gy) {
                    if let Some(e) = l.run(k, point) {
                        l.ok(e == t.rf.enc(&Some((gx, gy)), false), k, || format!("generator {e:02x?}"));
                    }
                } else {
                    l.refused(k, point);
                }
            }
        }
    });
}

pub fn c30(ctx: &Ctx) {
    let len = ctx.by(5, 6);
    ctx.bound(format!("every string of up to {len} characters over 16 (digits of the four radices, minus, prefix letters, blank, comma, point, a two-byte character), for GF(7), GF(251) and GF(2^255-19) and, up to {} characters, their quadratic fields", len - 1));
    let mut js = vec![];
    for p in [big(7), big(251), (BigInt::one() << 255u32) - 19] {
        for (i, a) in CHARS.iter().enumerate() {
            js.push((format!("p={p},first={a:?}"), (p.clone(), i)));
        }
    }
    ctx.par("strings", js, |l, (p, i)| {
        let f = field(p);
        let f2 = if nt::red(p, &big(4)) == big(3) { Some(Fp2::new(nt::ubig(p))) } else { None };
        c30_str(l, &f, f2.as_ref(), p, "");
        let mut cur = vec![CHARS[*i].to_string()];
        for n in 1..=len {
            for s in &cur {
                if l.stopped() {
                    return;
                }
                c30_str(l, &f, if n < len { f2.as_ref() } else { None }, p, s);
            }
            if n < len {
                cur = cur.iter().flat_map(|s| CHARS.iter().map(move |c| format!("{s}{c}"))).collect();
            }
        }
        usable(l, &f, p);
        l.sample(|| format!("{} strings of full length", cur.len()));
    });
    ctx.bound("long numerals in the four radices, with either sign, for the table primes (every 40th in quick, every 4th in thorough), the named ones 24 primes of special form and primes of 640 to 2203 bits: one character replaced at every position, or one inserted, by each of 14 that are no digits of the radix");
    let qs = with_named(nt::big_primes(|i, _, _| i % ctx.by(40, 4) == 0));
    ctx.par("long", jobs(qs), |l, q| {
        let f = field(&q.p);
        let f2 = if q.class % 4 == 3 { Some(Fp2::new(nt::ubig(&q.p))) } else { None };
        for (r, n) in [(10u32, &q.p - 1), (16, &q.p - 1), (8, &q.p >> 1), (2, &q.p >> 2u32)] {
            let ds = digits(&n, r, false);
            let step = (ds.len() / ctx.by(40, 200)).max(1);
            for (at, c) in (0..=ds.len()).filter(|i| i % step == 0 || i + 3 > ds.len() || i % 64 == 0).flat_map(|i| ["/", ":", "@", "G", "`", "g", " ", "\0", "\n", "2", "8", "9", "a", "x"].map(|c| (i, c))) {
                l.state();
                if c.chars().next().unwrap().to_digit(r).is_some() {
                    continue;
                }
                let cut = (at + 1).min(ds.len());
                for t in [format!("{}{}{c}{}", prefix(r), &ds[..at], &ds[cut..]), format!("-{}{}{c}{}", prefix(r), &ds[..at], &ds[at..])] {
                    // "0x", "0b" and "0o" may arise from a decimal numeral
                    if numeral(&t).is_some() {
                        continue;
                    }
                    l.refused(|| t.clone(), || -> Elt { str_elt(&f, &t) });
                    if let (Some(f2), true) = (&f2, at % 5 == 0) {
                        for u in [format!("{t},1"), format!("1,{t}")] {
                            l.refused(|| u.clone(), || -> redox_ecc::quadraticfield::Fp2Elt { str_elt(f2, &u) });
                        }
                    }
                }
            }
        }
        usable(l, &f, &q.p);
    });
    c30_descriptions::<W>(ctx);
    c30_descriptions::<E>(ctx);
    c30_descriptions::<M>(ctx);
}
