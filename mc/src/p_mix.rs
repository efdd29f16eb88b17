//! C09: values of different structures never mix; equal structures are interchangeable.

use crate::api::*;
use crate::engine::{Ctx, L};

use crate::nt::{self, big};
use crate::p_field::field;
use crate::refcurve::*;
use num_bigint::BigInt;
use num_traits::One;
use redox_ecc::ellipticcurve::{EcPoint, EllipticCurve};
use redox_ecc::quadraticfield::Fp2;
use std::fmt::Display;

/// Operators of the two field types, one ownership form at a time.
trait Fe: Clone + PartialEq + Display {
    fn bin(op: char, a: &Self, b: &Self, f: usize) -> Self;
}
impl Fe for Elt {
    fn bin(op: char, a: &Self, b: &Self, f: usize) -> Self {
        match op {
            '+' => form!(f, a, +, b),
            '-' => form!(f, a, -, b),
            '*' => form!(f, a, *, b),
            _ => form!(f, a, /, b),
        }
    }
}
type E2 = redox_ecc::quadraticfield::Fp2Elt;
impl Fe for E2 {
    fn bin(op: char, a: &Self, b: &Self, f: usize) -> Self {
        match op {
            '+' => form!(f, a, +, b),
            '-' => form!(f, a, -, b),
            '*' => form!(f, a, *, b),
            _ => form!(f, a, /, b),
        }
    }
}
const OPS: [char; 4] = ['+', '-', '*', '/'];

fn mixed<T: Fe>(l: &mut L, what: &str, x: &T, y: &T) {
    l.state();
    for op in OPS {
        for f in 0..4 {
            l.refused(|| format!("{what}:{x}{op}{y},form={f}"), || T::bin(op, x, y, f));
        }
    }
    let k = || format!("{what}:{x}=={y}");
    if let Some(e) = l.run(k, || (x == y, y == x, x != y)) {
        l.ok(e == (false, false, true), k, || "elements of different fields compare equal".into());
    }
}
fn together<T: Fe>(l: &mut L, what: &str, x: &T, y: &T, y0: &T) {
    l.state();
    // y is built in the other object; y0 is the same value in the object of x
    let k = |o: char, f: usize| format!("{what}:{x}{o}{y},form={f}");
    for op in OPS {
        for f in 0..4 {
            if let Some((a, b, c)) = l.run(|| k(op, f), || (T::bin(op, x, y, f), T::bin(op, x, y0, f), T::bin(op, y, x, f))) {
                let d = l.run(|| k(op, f), || T::bin(op, y0, x, f));
                l.ok(a == b && b == a && Some(&c) == d.as_ref() && a.to_string() == b.to_string(), || k(op, f), || format!("got {a} and {b}"));
            }
        }
    }
    l.ok(y == y0 && y0 == y && !(y != y0), || k('=', 0), || "equal elements of equal fields compare unequal".into());
}

/// Pairs of distinct odd primes: all small ones, and large ones that agree in their low or high words or lengths.
fn prime_pairs(ctx: &Ctx) -> Vec<(String, (BigInt, BigInt))> {
    let mut v = vec![];
    let small = nt::primes(3, ctx.by(43, 131));
    for &p in &small {
        for &q in &small {
            if p != q {
                v.push((format!("{p},{q}"), (BigInt::from(p), BigInt::from(q))));
            }
        }
    }
    let mut big_ones = nt::named_primes();
    big_ones.extend(nt::big_primes(|i, bits, _| bits > 33 && i % 150 == 0));
    for q in &big_ones {
        let bits = q.bits as u64;
        let mut steps: Vec<u64> = vec![1, bits / 2];
        for w in [32u64, 64] {
            let mut k = w;
            while k < bits + 64 {
                steps.push(k);
                k += w;
            }
        }
        if ctx.quick() {
            let n = steps.len();
            steps = vec![1, steps[2], steps[n / 2], steps[n - 1]];
        }
        for s in steps {
            // the next prime p + j*2^s
            let mut j = 1;
            let other = loop {
                let c: BigInt = &q.p + (BigInt::one() << s) * j;
                if nt::probably_prime(&c) {
                    break c;
                }
                j += 1;
            };
            v.push((format!("{},+2^{s}*{j}", q.name), (q.p.clone(), other)));
        }
    }
    for (i, a) in big_ones.iter().enumerate() {
        if i > 0 {
            v.push((format!("{},{}", a.name, big_ones[i - 1].name), (a.p.clone(), big_ones[i - 1].p.clone())));
        }
    }
    v
}

fn values(p: &BigInt, q: &BigInt) -> Vec<BigInt> {
    let m = p.min(q);
    vec![big(0), big(1), big(2), m - 1]
}

fn scalars<K: Kind>(l: &mut L, p: &BigInt, q: &BigInt) {
    let (up, uq) = (nt::ubig(p), nt::ubig(q));
    for x in values(p, q) {
        for y in values(p, q) {
            l.state();
            let (a, b) = (K::s_new(x.clone(), &up), K::s_new(y.clone(), &uq));
            let y0 = K::s_new(y.clone(), &up);
            let y1 = K::s_new(y.clone(), &nt::ubig(p));
            for op in OPS {
                for f in 0..4 {
                    let k = || format!("{}-scalar:{x}{op}{y},form={f}", K::NAME);
                    l.refused(k, || K::s_bin(op, &a, &b, f));
                    if let Some((u, v)) = l.run(k, || (K::s_bin(op, &a, &y0, f), K::s_bin(op, &a, &y1, f))) {
                        l.ok(u.to_string() == v.to_string() && K::s_eq(&u, &v) != Some(false), k, || format!("got {u} and {v}"));
                    }
                }
            }
            let k = || format!("{}-scalar:{x}=={y}", K::NAME);
            if let Some(Some(e)) = l.run(k, || K::s_eq(&a, &b).map(|e| e || K::s_eq(&b, &a).unwrap())) {
                l.ok(!e, k, || "scalars of different orders compare equal".into());
            }
            if let Some(Some(e)) = l.run(k, || K::s_eq(&y0, &y1).map(|e| e && K::s_eq(&y1, &y0).unwrap())) {
                l.ok(e, k, || "equal scalars compare unequal".into());
            }
        }
    }
}

fn points_differ<K: Kind>(l: &mut L, tag: &str, a: &K::P, b: &K::P) {
    l.state();
    for op in ['+', '-'] {
        for f in 0..4 {
            l.refused(|| format!("{tag}:({}){op}({}),form={f}", show(a), show(b)), || K::bin(op, a, b, f));
        }
    }
    let k = || format!("{tag}:({})==({})", show(a), show(b));
    if let Some(e) = l.run(k, || (a == b, b == a, a != b)) {
        l.ok(e == (false, false, true), k, || "points of different curves compare equal".into());
    }
}

fn scalar_differs<K: Kind>(l: &mut L, tag: &str, a: &K::P, r: &BigInt) {
    for k in [0i64, 1, 2] {
        l.state();
        let s = K::s_new(big(k), &nt::ubig(r));
        for f in 0..7 {
            l.refused(|| format!("{tag}:({})*{k} mod {r},form={f}", show(a)), || K::mul_f(a, &s, f));
        }
    }
}

fn points_agree<K: Kind>(l: &mut L, tag: &str, a: &K::P, b: &K::P, b0: &K::P) {
    l.state();
    for op in ['+', '-'] {
        for f in 0..4 {
            let k = || format!("{tag}:({}){op}({}),form={f}", show(a), show(b));
            if let Some((u, v, w)) = l.run(k, || (K::bin(op, a, b, f), K::bin(op, a, b0, f), K::bin(op, b, a, f))) {
                let e = u == v && v == u && (op == '-' || (w == u && u == w));
                l.ok(e, k, || format!("got {}, {} and {}", show(&u), show(&v), show(&w)));
            }
        }
    }
    l.ok(b == b0 && b0 == b && !(b != b0), || format!("{tag}:({})==({})", show(b), show(b0)), || "equal points of equal curves compare unequal".into());
}

type J = (u64, u64, u64, u64);
type Pair = (J, J);

/// Pairs of curves that differ in the coefficients, in the field, or in both, over small fields.
fn curve_pairs(model: Model, ctx: &Ctx) -> Vec<(String, Pair)> {
    let mut ps: Vec<u64> = vec![5, 7];
    if !ctx.quick() || model != Model::M {
        ps.push(11);
    }
    let mut all: Vec<J> = vec![];
    for &p in &ps {
        for a in 0..p {
            for b in 0..p {
                let s = if model == Model::M { good_s(p, a, b).first().cloned().unwrap_or(0) } else { 0 };
                if Toy::bare(model, p, a, b, s).is_some() {
                    all.push((p, a, b, s));
                }
            }
        }
    }
    let mut v = vec![];
    for x in &all {
        for y in &all {
            let same_eq = (x.1, x.2) == (y.1, y.2);
            let close = (x.0 == y.0 && (x.1 == y.1 || x.2 == y.2) && !same_eq) || (x.0 != y.0 && same_eq);
            let keep = if ctx.quick() { x.0.max(y.0) <= 7 || (x.1 + x.2 + y.1) % 3 == 0 } else { true };
            if close && keep {
                v.push((format!("p={},a={},b={}|p={},a={},b={}", x.0, x.1, x.2, y.0, y.1, y.2), (*x, *y)));
            }
        }
    }
    v
}

fn curves<K: Kind>(ctx: &Ctx) {
    ctx.bound(format!("{}: every pair of curves over GF(p), p <= 11, that differ in one coefficient or in the field only, with a common point as the generator of both: all common points and the identities, all operators and forms; the same curve with another order; every pair of named curves", K::NAME));
    ctx.par(&format!("{}-curves", K::NAME), curve_pairs(K::MODEL, ctx), |l, (x, y)| {
        let tx = Toy::bare(K::MODEL, x.0, x.1, x.2, x.3).unwrap();
        let ty = Toy::bare(K::MODEL, y.0, y.1, y.2, y.3).unwrap();
        let common: Vec<_> = tx.pts.iter().filter(|q| q.is_some() && ty.pts.contains(q)).cloned().collect();
        let g = common.iter().rev().find(|q| q.unwrap() != (0, 1)).cloned().flatten();
        let mut text = tx.text();
        let (gx, gy) = g.unwrap_or((0, 1));
        text.gx = gx.to_string();
        text.gy = gy.to_string();
        let mut other = ty.text();
        (other.gx, other.gy, other.r, other.h) = (text.gx.clone(), text.gy.clone(), text.r.clone(), text.h.clone());
        if K::MODEL == Model::M && x.0 == y.0 && good_s(y.0, y.1, y.2).contains(&x.3) {
            other.s = text.s.clone();
        }
        let (cx, cy) = (K::build(&text), K::build(&other));
        l.ok(cx != cy && cy != cx, || "curves".into(), || "different curves compare equal".into());
        let mut qs: Vec<Pt<u64>> = common;
        if K::MODEL != Model::E {
            qs.push(None);
        }
        for q in &qs {
            let a = tx.rf.point::<K>(&cx, q);
            for w in &qs {
                if qs.len() > 4 && q != w && *w != qs[0] {
                    continue;
                }
                let b = ty.rf.point::<K>(&cy, w);
                points_differ::<K>(l, "points", &a, &b);
            }
            // coordinates in another field
            if x.0 != y.0 {
                if let Some((u, v)) = q {
                    let (fx, fy) = (cx.get_field(), cy.get_field());
                    l.refused(|| format!("new_point({u},{v}) with x of the other field"), || cx.new_point(fe(&fy, *u), fe(&fx, *v)));
                    l.refused(|| format!("new_point({u},{v}) with y of the other field"), || cx.new_point(fe(&fx, *u), fe(&fy, *v)));
                }
            }
        }
        l.outcome(&(qs.len(), x.0, y.0));
    });
    let js: Vec<(String, J)> = toys(K::MODEL, &[5, 7, 11], |p, i| p <= 7 || i % 5 == 0);
    ctx.par(&format!("{}-orders", K::NAME), js, |l, j| {
        let t = toy(K::MODEL, j);
        if t.n() < 2 {
            return;
        }
        let text = t.text();
        let c = K::build(&text);
        let same = K::build(&text);
        l.ok(c == same && same == c, || "same".into(), || "equal curves compare unequal".into());
        // the same coefficients written differently
        let mut alias = text.clone();
        let neg = |s: &str| (s.parse::<i64>().unwrap() - t.p as i64).to_string();
        alias.a = neg(&text.a);
        alias.b = format!("0x{:x}", text.b.parse::<u64>().unwrap());
        let alias = K::build(&alias);
        l.ok(c == alias && alias == c, || "alias".into(), || "equal curves compare unequal".into());
        let pts = t.points::<K>(&c);
        let twin = t.points::<K>(&same);
        let ali = t.points::<K>(&alias);
        for i in 0..pts.len() {
            for k in 0..pts.len() {
                points_agree::<K>(l, "twin", &pts[i], &twin[k], &pts[k]);
                if k % 3 == i % 3 {
                    points_agree::<K>(l, "alias", &pts[i], &ali[k], &pts[k]);
                }
            }
        }
        for r in nt::primes(2, 23) {
            if r == t.r {
                continue;
            }
            let mut o = text.clone();
            o.r = r.to_string();
            let c2 = K::build(&o);
            let q2 = t.points::<K>(&c2);
            l.ok(c != c2 && c2 != c, || format!("order {r}"), || "curves of different orders compare equal".into());
            for i in 0..pts.len() {
                points_differ::<K>(l, "orders", &pts[i], &q2[i]);
                points_differ::<K>(l, "orders", &pts[i], &q2[(i + 1) % pts.len()]);
                scalar_differs::<K>(l, "scalar", &pts[i], &BigInt::from(r));
                let s = c2.new_scalar(big(1));
                l.refused(|| format!("scalar of the curve with order {r}"), || K::mul(&pts[i], &s));
            }
        }
        for k in 0..t.r {
            // a scalar built separately, from the same order
            let s = K::s_new(BigInt::from(k), &nt::ubig(&BigInt::from(t.r)));
            let s0 = c.new_scalar(BigInt::from(k));
            for (i, q) in pts.iter().enumerate() {
                let key = || format!("{k}*point {i}");
                if let Some((a, b)) = l.run(key, || (K::mul(q, &s), K::mul(q, &s0))) {
                    l.ok(a == b, key, || "differs".into());
                }
            }
        }
    });
    ctx.par(&format!("{}-named", K::NAME), named_jobs::<K>(), |l, &i| {
        let n = named::<K>(i);
        let again = named::<K>(i);
        l.ok(n.c == again.c && again.c == n.c, || "again".into(), || "equal curves compare unequal".into());
        let g = n.pt(&n.base());
        let g2 = again.pt(&again.base());
        points_agree::<K>(l, "again", &g, &g2, &g);
        points_agree::<K>(l, "again", &g, &again.c.identity(), &n.c.identity());
        for (_, j) in named_jobs::<K>() {
            if i == j {
                continue;
            }
            let m = named::<K>(j);
            l.ok(n.c != m.c, || format!("curve=={}", m.name), || "different curves compare equal".into());
            let h = m.pt(&m.base());
            points_differ::<K>(l, m.name, &g, &h);
            points_differ::<K>(l, m.name, &n.c.identity(), &m.c.identity());
            points_differ::<K>(l, m.name, &g, &m.c.identity());
            if n.r != m.r {
                scalar_differs::<K>(l, m.name, &g, &m.r);
            }
        }
        scalar_differs::<K>(l, "p", &g, &n.rf.ar.p());
        scalar_differs::<K>(l, "r+2", &g, &(&n.r + 2));
        let _ = g.is_zero();
    });
}

pub fn c09(ctx: &Ctx) {
    ctx.bound("every ordered pair of distinct odd primes up to 43 (thorough 131), and for large and named primes the next primes that agree with them in all low or high words: values 0, 1, 2, p-1 of both fields, in prime and quadratic fields and as scalars of the three models, every operator in four ownership forms and both directions of ==; the same values in separately built equal structures combine as if from one");
    ctx.par("fields", prime_pairs(ctx), |l, (p, q)| {
        let (f, g, f2) = (field(p), field(q), field(p));
        l.ok(f != g && g != f && f == f2, || "fields".into(), || "field equality is wrong".into());
        for x in values(p, q) {
            for y in values(p, q) {
                mixed(l, "fp", &f.elt(x.clone()), &g.elt(y.clone()));
                together(l, "fp", &f.elt(x.clone()), &f2.elt(y.clone()), &f.elt(y.clone()));
            }
        }
        let three = |n: &BigInt| nt::low(n) % 4 == 3;
        if three(p) && three(q) {
            let (f, g, f2) = (Fp2::new(nt::ubig(p)), Fp2::new(nt::ubig(q)), Fp2::new(nt::ubig(p)));
            l.ok(f != g && g != f && f == f2, || "fields2".into(), || "field equality is wrong".into());
            for x in [(0, 0), (1, 0), (0, 1), (2, 1)] {
                for y in [(0, 0), (1, 0), (0, 1), (2, 1)] {
                    let mk = |f: &Fp2, v: (u32, u32)| -> E2 { crate::p_field::str_elt(f, &format!("{},{}", v.0, v.1)) };
                    mixed(l, "fp2", &mk(&f, x), &mk(&g, y));
                    together(l, "fp2", &mk(&f, x), &mk(&f2, y), &mk(&f, y));
                }
            }
        }
        scalars::<W>(l, p, q);
        scalars::<E>(l, p, q);
        scalars::<M>(l, p, q);
    });
    curves::<W>(ctx);
    curves::<E>(ctx);
    curves::<M>(ctx);
}
