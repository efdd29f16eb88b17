//! C13: scalars of the three curve models.

use crate::api::*;
use crate::engine::{Ctx, L};
use crate::nt::{self, big};
use crate::p_field::{jobs, pjobs, table, with_named_};
use crate::refcurve::named_jobs;
use num_bigint::{BigInt, BigUint};
use redox_ecc::ellipticcurve::EllipticCurve;

/// The scalar is the residue `want` modulo `r`: by its decimal form, its bytes, its bits and its equality.
fn is<K: Kind>(got: &K::S, want: &BigInt, r: &BigInt, ur: &BigUint) -> bool {
    got.to_string() == want.to_string()
        && got.to_bytes_be() == nt::be_bytes(want, nt::bytelen(r))
        && K::s_eq(got, &K::s_new(want.clone(), ur)) != Some(false)
        && K::s_eq(got, &K::s_new(want + 1, ur)) != Some(true)
}

fn one<K: Kind>(l: &mut L, x: &BigInt, r: &BigInt, ur: &BigUint) {
    l.state();
    let k = |t: &str| format!("{}:{t}({x})", K::NAME);
    let w = nt::red(x, r);
    let Some(s) = l.run(|| k("new"), || K::s_new(x.clone(), ur)) else { return };
    l.ok(is::<K>(&s, &w, r, ur), || k("new"), || format!("got {s}, expected {w}"));
    l.outcome(&w);
    let Some(v) = l.run(|| k("neg"), || K::s_neg(&s)) else { return };
    let nw = nt::red(&-&w, r);
    for q in &v {
        l.ok(is::<K>(q, &nw, r, ur), || k("neg"), || format!("got {q}, expected {nw}"));
    }
    if let Some(q) = l.run(|| k("inv"), || K::s_inv(&s)) {
        let iw = nt::inv(&w, r);
        l.ok(is::<K>(&q, &iw, r, ur), || k("inv"), || format!("got {q}, expected {iw}"));
    }
    let n = w.bits();
    let rl: Vec<bool> = (0..n).map(|i| w.bit(i)).collect();
    let lr: Vec<bool> = rl.iter().rev().cloned().collect();
    let max = n as usize + 80;
    if let Some(v) = l.run(|| k("iter_lr"), || K::lr(&s, max)) {
        l.ok(v == lr, || k("iter_lr"), || format!("got {v:?}, expected {lr:?}"));
    }
    if let Some(v) = l.run(|| k("iter_rl"), || K::rl(&s, max)) {
        l.ok(v == rl, || k("iter_rl"), || format!("got {v:?}, expected {rl:?}"));
    }
}

#[allow(clippy::too_many_arguments)]
fn pair<K: Kind>(l: &mut L, x: &BigInt, y: &BigInt, a: &K::S, b: &K::S, iy: Option<&BigInt>, r: &BigInt, ur: &BigUint) {
    l.state();
    let k = |o: &str, f: usize| format!("{}:{x}{o}{y},form={f}", K::NAME);
    let mut chk = |o: &str, v: Option<[K::S; 4]>, w: BigInt| {
        if let Some(v) = v {
            for (f, q) in v.iter().enumerate() {
                l.ok(is::<K>(q, &w, r, ur), || k(o, f), || format!("got {q}, expected {w}"));
            }
        }
    };
    // the runs need the same borrow, so each result is computed first
    let add = crate::engine::guarded(|| K::s_add(a, b));
    chk("+", add.as_ref().ok().cloned(), nt::red(&(x + y), r));
    let sub = crate::engine::guarded(|| K::s_sub(a, b));
    chk("-", sub.as_ref().ok().cloned(), nt::red(&(x - y), r));
    let mul = crate::engine::guarded(|| K::s_mul(a, b));
    chk("*", mul.as_ref().ok().cloned(), nt::red(&(x * y), r));
    let mut errs = vec![("+", add.err()), ("-", sub.err()), ("*", mul.err())];
    if let Some(iy) = iy {
        let div = crate::engine::guarded(|| K::s_div(a, b));
        chk("/", div.as_ref().ok().cloned(), nt::red(&(x * iy), r));
        errs.push(("/", div.err()));
    }
    l.calls(4 * errs.len() as u64);
    for (o, e) in errs {
        if let Some(m) = e {
            l.ok(false, || k(o, 0), || format!("unexpected panic: {m}"));
        }
    }
    if let Some(Some((e, f))) = l.run(|| k("==", 0), || K::s_eq(a, b).map(|e| (e, K::s_eq(b, a).unwrap()))) {
        l.ok(e == (x == y) && f == (x == y), || k("==", 0), || format!("equality answers {e}, {f}"));
    }
    l.ok(is::<K>(a, x, r, ur) && is::<K>(b, y, r, ur), || k("operands", 0), || "an operand changed".into());
}

fn small<K: Kind>(l: &mut L, p: u64) {
    let r = BigInt::from(p);
    let ur = nt::ubig(&r);
    let ip = p as i64;
    for x in -3 * ip - 1..=3 * ip + 1 {
        one::<K>(l, &big(x), &r, &ur);
    }
    let xs: Vec<BigInt> = (0..ip).map(big).collect();
    let ss: Vec<K::S> = xs.iter().map(|x| K::s_new(x.clone(), &ur)).collect();
    let inv: Vec<BigInt> = xs.iter().map(|x| nt::inv(x, &r)).collect();
    for i in 0..xs.len() {
        if l.stopped() {
            return;
        }
        for j in 0..xs.len() {
            pair::<K>(l, &xs[i], &xs[j], &ss[i], &ss[j], Some(&inv[j]), &r, &ur);
        }
    }
}

fn large<K: Kind>(l: &mut L, q: &nt::Prime) {
    let r = &q.p;
    let ur = nt::ubig(r);
    let named = q.name.contains('(');
    let quick = l.ctx.quick();
    let level = if named { 1 } else { 0 };
    let xs = nt::alphabet(r, if quick || r.bits() > 600 { level } else { 1 });
    for x in &xs {
        one::<K>(l, x, r, &ur);
    }
    for x in nt::integers(r, level) {
        one::<K>(l, &x, r, &ur);
    }
    // every length of the iterators
    for e in 0..r.bits() {
        for d in [0i64, -1, 1] {
            if quick && d == 1 && e % 8 != 0 {
                continue;
            }
            let x: BigInt = (BigInt::from(1) << e) + d;
            if named || x.bits() % 32 < 2 || !quick {
                one::<K>(l, &x, r, &ur);
            }
        }
    }
    let ss: Vec<K::S> = xs.iter().map(|x| K::s_new(x.clone(), &ur)).collect();
    for i in 0..xs.len() {
        if l.stopped() {
            return;
        }
        for j in 0..xs.len() {
            let iy = (named && (i + j) % 5 == 0 || (i * 3 + j) % 17 == 0).then(|| nt::inv(&xs[j], r));
            pair::<K>(l, &xs[i], &xs[j], &ss[i], &ss[j], iy.as_ref(), r, &ur);
        }
    }
}

fn of_curve<K: Kind>(l: &mut L, i: usize) {
    let row = &crate::refcurve::rows::<K>()[i];
    let r = nt::dec(row[4]);
    let c = K::named(row[0]).unwrap();
    for x in nt::integers(&r, 1).into_iter().chain(nt::alphabet(&r, 2)) {
        l.state();
        let w = nt::red(&x, &r);
        let k = || format!("{}:new_scalar({x})", K::NAME);
        if let Some(s) = l.run(k, || c.new_scalar(x.clone())) {
            l.ok(is::<K>(&s, &w, &r, &nt::ubig(&r)), k, || format!("got {s}, expected {w}"));
        }
    }
}

pub fn c13(ctx: &Ctx) {
    let hi = ctx.by(31, 127);
    ctx.bound(format!("every odd prime order r <= {hi}, each of the three models: every integer in [-3r-1, 3r+1] (construction, negation, inverse, both bit iterators) and every pair of scalars (+ - * / == in four ownership forms)"));
    ctx.par("small", pjobs(nt::primes(3, hi)), |l, &p| {
        small::<W>(l, p);
        small::<E>(l, p);
        small::<M>(l, p);
    });
    ctx.bound("orders from the prime table (every 40th row in quick, every 4th in thorough) and the named ones, 24 primes of special form and primes of 640 to 2203 bits: boundary integers of any sign and size, every power of two and its neighbours (bit iterators), every pair of the boundary alphabet");
    let qs = if ctx.quick() {
        with_named_(ctx, table(ctx, 40))
    } else {
        with_named_(ctx, nt::big_primes(|i, _, _| i % 4 == 0))
    };
    ctx.par("large", jobs(qs), |l, q| {
        large::<W>(l, q);
        large::<E>(l, q);
        large::<M>(l, q);
    });
    ctx.bound("scalars obtained from every named curve, for boundary integers");
    ctx.par("curve-w", named_jobs::<W>(), |l, &i| of_curve::<W>(l, i));
    ctx.par("curve-e", named_jobs::<E>(), |l, &i| of_curve::<E>(l, i));
    ctx.par("curve-m", named_jobs::<M>(), |l, &i| of_curve::<M>(l, i));
}
