//! C10 - C12, C14 - C18: the three curve models.

use crate::api::*;
use crate::engine::{Ctx, L};
use crate::nt::{self, big};
use crate::refcurve::*;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode};
use std::collections::HashMap;

type J = (u64, u64, u64, u64);

/// All representatives of points reachable from the affine ones by additions, negations, doublings,
/// multiplications by 2 and 3 (the library doubles with formulas of their own there) and normalizations (breadth first; the key is the printed coordinates, used as an opaque value).
pub fn closure<K: Kind>(l: &mut L, t: &Toy, ec: &K::C, canon: &[K::P], cap: usize) -> Vec<(usize, K::P)> {
    let mut seen: HashMap<(usize, String), ()> = HashMap::new();
    let mut reps: Vec<(usize, K::P)> = vec![];
    for (i, q) in canon.iter().enumerate() {
        seen.insert((i, q.to_string()), ());
        reps.push((i, q.clone()));
    }
    let small: Vec<(usize, _)> = [2usize, 3].into_iter().filter(|k| *k < t.r as usize).map(|k| (k, ec.new_scalar(big(k as i64)))).collect();
    let mut at = 0;
    while at < reps.len() && reps.len() < cap {
        let (i, q) = reps[at].clone();
        at += 1;
        let mut new: Vec<(usize, K::P)> = vec![];
        let key = |o: &str| format!("representatives/{}{o}", show(&q));
        if let Some(r) = l.run(|| key("neg"), || K::neg(&q)) {
            new.push((t.neg[i], r));
        }
        if let Some(r) = l.run(|| key("dbl"), || K::add(&q, &q)) {
            new.push((t.add(i, i), r));
        }
        for (k, s) in &small {
            if let Some(r) = l.run(|| key("mul"), || K::mul(&q, s)) {
                let d = t.add(i, i);
                new.push((if *k == 2 { d } else { t.add(d, i) }, r));
            }
        }
        if let Some(r) = l.run(
            || key("normalize"),
            || {
                let mut r = q.clone();
                K::normalize(&mut r);
                r
            },
        ) {
            new.push((i, r));
        }
        for (j, c) in canon.iter().enumerate() {
            if let Some(r) = l.run(|| key("add"), || K::add(&q, c)) {
                new.push((t.add(i, j), r));
            }
        }
        for (c, r) in new {
            let k = (c, r.to_string());
            if !seen.contains_key(&k) {
                seen.insert(k, ());
                reps.push((c, r));
            }
        }
    }
    reps
}

pub fn check<K: Kind>(l: &mut L, t: &Toy, c: &K::C, canon: &[K::P], got: &K::P, want: usize, key: impl Fn() -> String) {
    let other = &canon[(want + 1) % canon.len()];
    let r = l.run(&key, || {
        same::<_, K>(&t.rf, got, &canon[want], other, &t.pts[want])?;
        if !c.is_on_curve(got) {
            return Err(format!("{} is not on the curve", show(got)));
        }
        Ok(())
    });
    if let Some(r) = r {
        let e = r.err().unwrap_or_default();
        l.ok(e.is_empty(), &key, || e.clone());
    }
}

// ------------------------------------------------------------------------------------- C10, C11, C12

pub fn group<K: Kind>(ctx: &Ctx) {
    let (p1, p2): (Vec<u64>, Vec<u64>) = match (K::MODEL, ctx.quick()) {
        (Model::W, true) => (vec![5, 7, 11, 13], vec![17, 19, 23]),
        (Model::W, false) => (vec![5, 7, 11, 13, 17, 19], vec![23, 29, 31, 37]),
        (Model::E, true) => (vec![3, 5, 7, 11, 13], vec![17, 19, 23]),
        (Model::E, false) => (vec![3, 5, 7, 11, 13, 17, 19], vec![23, 29, 31, 37, 41]),
        (Model::M, true) => (vec![5, 7, 11], vec![13, 17]),
        (Model::M, false) => (vec![5, 7, 11, 13, 17], vec![19, 23, 29]),
    };
    ctx.bound(format!("every supported curve over GF(p), p in {p1:?}: all pairs of reachable projective representatives, against the group table of the textbook law"));
    ctx.par("representatives", toys(K::MODEL, &p1, |_, _| true), |l, j: &J| {
        let t = toy(K::MODEL, j);
        let c = t.build::<K>();
        let canon = t.points::<K>(&c);
        if canon.len() < 2 {
            return;
        }
        let reps = closure::<K>(l, &t, &c, &canon, 4 * t.n() * t.p as usize);
        let small: Vec<_> = [2i64, 3, 4].into_iter().filter(|k| *k < t.r as i64).map(|k| (k, c.new_scalar(big(k)))).collect();
        for (i, a) in &reps {
            if l.stopped() {
                return;
            }
            for (k, s) in &small {
                if let Some(r) = l.run(|| format!("{k}*({})", show(a)), || K::mul(a, s)) {
                    let d = t.add(*i, *i);
                    let want = match k {
                        2 => d,
                        3 => t.add(d, *i),
                        _ => t.add(d, d),
                    };
                    check::<K>(l, &t, &c, &canon, &r, want, || format!("{k}*({})", show(a)));
                }
            }
            if let Some(r) = l.run(|| format!("-{}", show(a)), || K::neg(a)) {
                check::<K>(l, &t, &c, &canon, &r, t.neg[*i], || format!("-({})", show(a)));
            }
            for (k, b) in &reps {
                l.state();
                let key = |o: &str| format!("({}){o}({})", show(a), show(b));
                if let Some(r) = l.run(|| key("+"), || K::add(a, b)) {
                    check::<K>(l, &t, &c, &canon, &r, t.add(*i, *k), || key("+"));
                }
            }
            for (k, b) in canon.iter().enumerate() {
                let key = |o: &str| format!("({}){o}({})", show(a), show(b));
                if let Some(r) = l.run(|| key("-"), || K::sub(a, b)) {
                    check::<K>(l, &t, &c, &canon, &r, t.sub(*i, k), || key("-"));
                }
            }
        }
        l.outcome(&(t.label(), reps.len()));
        l.sample(|| format!("{} points, {} representatives, all pairs added", t.n(), reps.len()));
    });
    ctx.bound(format!("every supported curve over GF(p), p in {p2:?} and the ones above: all pairs of affine points and the identity, addition and subtraction in four ownership forms, negation, doubling of one object"));
    let mut all = p1.clone();
    all.extend(&p2);
    ctx.par("points", toys(K::MODEL, &all, |_, _| true), |l, j: &J| {
        let t = toy(K::MODEL, j);
        let c = t.build::<K>();
        let canon = t.points::<K>(&c);
        if canon.len() < 2 {
            return;
        }
        for i in 0..t.n() {
            if l.stopped() {
                return;
            }
            let a = &canon[i];
            if let Some(r) = l.run(|| format!("-{:?}", t.pts[i]), || K::neg2(a)) {
                for q in &r {
                    check::<K>(l, &t, &c, &canon, q, t.neg[i], || format!("-{:?}", t.pts[i]));
                }
            }
            if let Some(r) = l.run(|| format!("2*{:?}", t.pts[i]), || K::add(a, a)) {
                check::<K>(l, &t, &c, &canon, &r, t.add(i, i), || format!("2*{:?}", t.pts[i]));
            }
            for k in 0..t.n() {
                l.state();
                let b = &canon[k];
                let key = |o: &str, f: usize| format!("{:?}{o}{:?},form={f}", t.pts[i], t.pts[k]);
                // every form for the small fields, one form (in rotation) for the others
                if t.p <= 13 {
                    if let Some(r) = l.run(|| key("+", 9), || K::add4(a, b)) {
                        for (f, q) in r.iter().enumerate() {
                            check::<K>(l, &t, &c, &canon, q, t.add(i, k), || key("+", f));
                        }
                    }
                    if let Some(r) = l.run(|| key("-", 9), || K::sub4(a, b)) {
                        for (f, q) in r.iter().enumerate() {
                            check::<K>(l, &t, &c, &canon, q, t.sub(i, k), || key("-", f));
                        }
                    }
                } else {
                    if let Some(r) = l.run(|| key("+", 0), || K::add(a, b)) {
                        check::<K>(l, &t, &c, &canon, &r, t.add(i, k), || key("+", 0));
                    }
                    if k >= i {
                        if let Some(r) = l.run(|| key("-", 0), || K::sub(a, b)) {
                            check::<K>(l, &t, &c, &canon, &r, t.sub(i, k), || key("-", 0));
                        }
                    }
                }
                l.outcome(&t.pts[t.add(i, k)]);
            }
            check::<K>(l, &t, &c, &canon, a, i, || format!("unchanged {:?}", t.pts[i]));
        }
    });
    let level = ctx.by(0, 2);
    ctx.bound("named curves: all pairs of an alphabet of points (identity, small multiples of the base point and opposites, half the order, points of small abscissa, torsion points and their translates), in affine and in computed representation");
    ctx.bound(format!("the same for a curve of known order (4r for Edwards and Montgomery curves) over a field of each size of curves.rs, 6..530 bits{}", ctx.by(" (every 4th size)", "")));
    let mut js: Vec<(String, (usize, usize, usize))> =
        named_jobs::<K>().into_iter().flat_map(|(n, i)| (0..8).map(move |part| (format!("{n}/{part}"), (i, part, 8)))).collect();
    js.extend(wide_jobs::<K>(ctx.by(4, 1)).into_iter().map(|(n, i)| (n, (i, 0, 1))));
    ctx.par("named", js, |l, &(i, part, parts)| {
        let n = named::<K>(i);
        let pts = n.alphabet(if i >= WIDE { level.min(1) } else { level });
        let g = n.pt(&n.base());
        let aff: Vec<K::P> = pts.iter().map(|p| n.pt(p)).collect();
        let comp: Vec<Option<K::P>> = aff.iter().map(|p| l.run(|| "computed".into(), || K::sub(&K::add(p, &g), &g))).collect();
        for i in (part..pts.len()).step_by(parts) {
            for j in 0..pts.len() {
                l.state();
                if l.stopped() {
                    return;
                }
                let want = n.rf.add(&pts[i], &pts[j]);
                let wp = n.pt(&want);
                let other = n.pt(&n.rf.add(&want, &n.base()));
                let (Some(ci), Some(cj)) = (&comp[i], &comp[j]) else { continue };
                let combos: [(&K::P, &K::P, &str); 3] = [(&aff[i], &aff[j], "affine"), (ci, cj, "computed"), (&aff[i], cj, "mixed")];
                for (a, b, how) in combos {
                    let key = || format!("({})+({}),{how}", show(a), show(b));
                    if let Some(r) = l.run(key, || same::<_, K>(&n.rf, &K::add(a, b), &wp, &other, &want)) {
                        l.ok(r.is_ok(), key, || r.clone().unwrap_err());
                    }
                }
                if let Some(r) = l.run(
                    || format!("({})-(-({}))", show(&aff[i]), show(cj)),
                    || same::<_, K>(&n.rf, &K::sub(&aff[i], &K::neg(cj)), &wp, &other, &want),
                ) {
                    l.ok(r.is_ok(), || format!("({})-(-({}))", show(&aff[i]), show(cj)), || r.clone().unwrap_err());
                }
                l.outcome(&want);
            }
        }
        l.sample(|| format!("{} points of {}, all pairs", pts.len(), n.name));
    });
}

// ---------------------------------------------------------------------------------------------- C14

fn c14_model<K: Kind>(ctx: &Ctx) {
    let ps: Vec<u64> = match (K::MODEL, ctx.quick()) {
        (Model::M, true) => vec![5, 7, 11],
        (_, true) => vec![5, 7, 11, 13],
        (_, false) => vec![5, 7, 11, 13, 17, 19],
    };
    ctx.bound(format!("{}: every supported curve over GF(p), p in {ps:?}, every point, every integer k in [-(2r+2), 2r+2] and integers around multiples of r near 2^32, 2^64 and 2^130; all seven operand forms for 0 <= k < r", K::NAME));
    ctx.par(&format!("{}-toy", K::NAME), toys(K::MODEL, &ps, |_, _| true), |l, j: &J| {
        let t = toy(K::MODEL, j);
        let c = t.build::<K>();
        let canon = t.points::<K>(&c);
        if canon.len() < 2 {
            return;
        }
        let r = t.r as i64;
        let mut ks: Vec<BigInt> = (-(2 * r + 2)..=2 * r + 2).map(big).collect();
        for e in [32u32, 64, 130] {
            let base: BigInt = (BigInt::one() << e) / r * r;
            for d in -1..=r.min(5) {
                ks.push(&base + d);
                ks.push(-&base + d);
            }
        }
        for i in 0..t.n() {
            if l.stopped() {
                return;
            }
            let multiples: Vec<usize> = (0..t.r).scan(0usize, |s, _| {
                let v = *s;
                *s = t.add(*s, i);
                Some(v)
            }).collect();
            // a second representative of the same point
            let rep = l.run(|| "rep".into(), || K::sub(&K::add(&canon[i], &canon[1]), &canon[1]));
            for k in &ks {
                l.state();
                let m = nt::low(&nt::red(k, &big(r)));
                let want = multiples[m as usize];
                let key = |f: usize| format!("{k}*{:?},form={f}", t.pts[i]);
                let sc = match l.run(|| key(99), || c.new_scalar(k.clone())) {
                    Some(s) => s,
                    None => continue,
                };
                if *k >= big(0) && *k < big(r) {
                    if let Some(v) = l.run(|| key(9), || K::mul7(&canon[i], &sc)) {
                        l.calls(6);
                        for (f, q) in v.iter().enumerate() {
                            check::<K>(l, &t, &c, &canon, q, want, || key(f));
                        }
                    }
                    if let Some(a) = &rep {
                        if let Some(q) = l.run(|| key(8), || K::mul(a, &sc)) {
                            check::<K>(l, &t, &c, &canon, &q, want, || key(8));
                        }
                    }
                } else if let Some(q) = l.run(|| key(0), || K::mul(&canon[i], &sc)) {
                    check::<K>(l, &t, &c, &canon, &q, want, || key(0));
                }
                l.outcome(&t.pts[want]);
            }
        }
        l.sample(|| format!("{} points, {} integers", t.n(), ks.len()));
    });
    let ps: Vec<u64> = match (K::MODEL, ctx.quick()) {
        (Model::E, true) => vec![3, 5, 7],
        (_, true) => vec![5, 7],
        (Model::E, false) => vec![3, 5, 7, 11, 13],
        (_, false) => vec![5, 7, 11, 13],
    };
    ctx.bound(format!("{}: every supported curve over GF(p), p in {ps:?}, every reachable projective representative of every point, every integer k in [0, r)", K::NAME));
    ctx.par(&format!("{}-representatives", K::NAME), toys(K::MODEL, &ps, |_, _| true), |l, j: &J| {
        let t = toy(K::MODEL, j);
        let c = t.build::<K>();
        let canon = t.points::<K>(&c);
        if canon.len() < 2 {
            return;
        }
        let reps = closure::<K>(l, &t, &c, &canon, 4 * t.n() * t.p as usize);
        let scs: Vec<_> = (0..t.r as i64).map(|k| c.new_scalar(big(k))).collect();
        for (i, a) in &reps {
            let mut want = 0;
            for (k, sc) in scs.iter().enumerate() {
                l.state();
                if l.stopped() {
                    return;
                }
                let key = || format!("{k}*({})", show(a));
                if let Some(q) = l.run(key, || K::mul(a, sc)) {
                    check::<K>(l, &t, &c, &canon, &q, want, key);
                }
                want = t.add(want, *i);
            }
        }
        l.outcome(&(t.label(), reps.len()));
    });
    ctx.bound(format!("{}: named curves, three base points, every power of two up to the order with its neighbours (every 5th in quick), orders and halves with neighbours, dense and sparse patterns, every pattern of eight bits repeated, negative and oversized integers", K::NAME));
    let js: Vec<(String, (usize, usize))> = named_jobs::<K>().into_iter().flat_map(|(n, i)| (0..6).map(move |k| (format!("{n}/{k}"), (i, k)))).collect();
    ctx.bound(format!("{}: the same for a curve of known order over a field of each size (every second one in quick) of curves.rs, 6..530 bits: the generator and a point with a torsion component, the boundary integers", K::NAME));
    let js: Vec<_> = js.into_iter().chain(wide_jobs::<K>(ctx.by(2, 1)).into_iter().map(|(n, i)| (n, (i, 6)))).collect();
    ctx.par(&format!("{}-named", K::NAME), js, |l, &(i, part)| {
        let n = named::<K>(i);
        let rf = &n.rf;
        let g = n.base();
        let lifted = n.lifted(4);
        let wide = part == 6;
        // the multiples of a point outside of the subgroup depend on the residue of the integer only
        let bases = [g.clone(), lifted[3].clone(), rf.add(&lifted[1], &g)];
        let base = &bases[if wide { n.r.bits() as usize % 3 } else { part % 3 }];
        let lp = n.pt(base);
        let r = &n.r;
        let mut ks: Vec<BigInt> = vec![];
        for d in -2i64..=2 {
            ks.push(big(d));
            ks.push(r + d);
            ks.push((r >> 1) + d);
            ks.push(-r + d);
            ks.push(r * 3 + d);
        }
        let step = if l.ctx.quick() { 5 } else { 1 };
        let mut e = 2;
        while e < r.bits() + 2 {
            for d in [-1i64, 0, 1] {
                ks.push((BigInt::one() << e) + d);
            }
            e += step;
        }
        for w in [31u64, 32, 33, 63, 64, 65, 95, 96, 127, 128, 160, 192, 224, 255, 256] {
            let t: BigInt = BigInt::one() << w;
            ks.push(&t - 1);
            ks.push(t.clone());
            ks.push(&t + (BigInt::one() << (w / 2)));
            ks.push(r - &t);
        }
        if !wide {
            // every pattern of eight bits, repeated, at some position and at the length of the order
            for v in (1..=255u32).filter(|v| (*v as usize / 2) % 3 == part % 3) {
                let mut t = BigInt::zero();
                while t.bits() < r.bits() + 8 {
                    t = (t << 8u32) + v;
                }
                ks.push(&t >> (t.bits() - r.bits() + 1));
                if !l.ctx.quick() {
                    ks.push(&t >> (t.bits() - r.bits() / 2));
                    ks.push((BigInt::from(v) << (r.bits() / 2)) + 1);
                }
            }
        }
        ks.extend(nt::alphabet(r, 1));
        ks.push(BigInt::one() << 600u32);
        ks.push((r * r) - 1);
        // reference multiples of two-powers
        let mut pow = vec![base.clone()];
        for _ in 0..r.bits() {
            let q = pow.last().unwrap();
            pow.push(rf.add(q, q));
        }
        if wide {
            let keep = l.ctx.by(12, 2);
            ks = ks.into_iter().enumerate().filter(|(x, _)| x % keep == 0).map(|x| x.1).collect();
            ks.extend([r - 1, r.clone(), r >> 1, (BigInt::one() << (r.bits() - 1)) + 1]);
        }
        for (x, k) in ks.iter().enumerate() {
            if !wide && x % 2 != part / 3 {
                continue;
            }
            l.state();
            if l.stopped() {
                return;
            }
            let m = nt::red(k, r);
            let mut want = rf.id();
            // signed digits keep the reference sums short for dense scalars
            let mut v = m.clone();
            let mut b = 0;
            while !v.is_zero() {
                if v.bit(0) {
                    if nt::low(&v) & 3 == 3 {
                        want = rf.add(&want, &rf.neg(&pow[b]));
                        v += 1;
                    } else {
                        want = rf.add(&want, &pow[b]);
                        v -= 1;
                    }
                }
                v >>= 1;
                b += 1;
            }
            let key = || format!("{k}*{:?}", base);
            let wp = n.pt(&want);
            let other = n.pt(&rf.add(&want, &g));
            if let Some(res) = l.run(key, || same::<_, K>(rf, &K::mul(&lp, &n.c.new_scalar(k.clone())), &wp, &other, &want)) {
                l.ok(res.is_ok(), key, || res.clone().unwrap_err());
                l.outcome(&want);
            }
        }
        l.sample(|| format!("{} scalars on {}", ks.len(), n.name));
    });
}
/// Every scalar of curves whose order has more bits than any table of multiples.
fn c14_all<K: Kind>(ctx: &Ctx) {
    let bits: Vec<u32> = ctx.by(vec![10, 12, 14, 16], vec![10, 11, 12, 13, 14, 15, 16, 17, 18, 20]);
    ctx.bound(format!("{}: every scalar of the curves of known order over fields of {bits:?} bits, on the generator in two representations", K::NAME));
    let mut js = vec![];
    for (name, i) in wide_jobs::<K>(1) {
        if bits.contains(&wide_rows::<K>()[i - WIDE].0) {
            js.extend((0..8).map(|k| (format!("{name}/{k}"), (i, k))));
        }
    }
    ctx.par(&format!("{}-all", K::NAME), js, |l, &(i, part)| {
        let n = named::<K>(i);
        let g = n.base();
        let r = nt::low(&n.r);
        let (lo, hi) = (part * r / 8, (part + 1) * r / 8);
        let mut want = n.rf.mul(&BigInt::from(lo), &g);
        let a = n.pt(&g);
        let b = K::sub(&K::add(&a, &a), &a);
        for k in lo..hi {
            l.state();
            if l.stopped() {
                return;
            }
            let key = || format!("{k}*{g:?}");
            let base = if k % 2 == 0 { &a } else { &b };
            if let Some(e) = l.run(key, || K::mul(base, &n.c.new_scalar(BigInt::from(k))).encode(false)) {
                l.ok(e == n.rf.enc(&want, false), key, || format!("got {e:02x?}, expected {want:?}"));
            }
            want = n.rf.add(&want, &g);
        }
        l.outcome(&want);
        l.sample(|| format!("{} scalars", hi - lo));
    });
}
pub fn c14(ctx: &Ctx) {
    c14_all::<W>(ctx);
    c14_all::<E>(ctx);
    c14_all::<M>(ctx);
    c14_model::<W>(ctx);
    c14_model::<E>(ctx);
    c14_model::<M>(ctx);
}

// ---------------------------------------------------------------------------------------------- C15

fn c15_model<K: Kind>(ctx: &Ctx) {
    let ps: Vec<u64> = match (K::MODEL, ctx.quick()) {
        (Model::W, true) => vec![5, 7, 11, 13],
        (Model::W, false) => vec![5, 7, 11, 13, 17, 19, 23],
        (Model::E, true) => vec![3, 5, 7, 11, 13],
        (Model::E, false) => vec![3, 5, 7, 11, 13, 17, 19],
        (Model::M, true) => vec![5, 7, 11],
        (Model::M, false) => vec![5, 7, 11, 13, 17],
    };
    ctx.bound(format!("{}: every supported curve over GF(p), p in {ps:?}: equality on all pairs of reachable representatives; identity test, order-two test, normalization and encoding on each", K::NAME));
    ctx.par(&format!("{}-toy", K::NAME), toys(K::MODEL, &ps, |_, _| true), |l, j: &J| {
        let t = toy(K::MODEL, j);
        let c = t.build::<K>();
        let canon = t.points::<K>(&c);
        let reps = closure::<K>(l, &t, &c, &canon, 4 * t.n() * t.p as usize);
        for (i, a) in &reps {
            if l.stopped() {
                return;
            }
            let key = |o: &str| format!("{o}({}) of {:?}", show(a), t.pts[*i]);
            for (k, b) in &reps {
                l.state();
                let kk = || format!("({})==({})", show(a), show(b));
                if let Some((e, ne)) = l.run(kk, || (a == b, a != b)) {
                    l.ok(e == (i == k) && ne == (i != k), kk, || format!("answered {e}"));
                }
            }
            one_rep::<K, _>(l, &t.rf, a, &t.pts[*i], *i == 0, t.ord.get(*i) == Some(&2), key, &canon, *i);
        }
        l.outcome(&(t.label(), reps.len()));
        l.sample(|| format!("{} points in {} representations", t.n(), reps.len()));
    });
    ctx.bound(format!("{}: named curves, every point of the alphabet in five representations", K::NAME));
    let level = ctx.by(0, 2);
    let js: Vec<_> = named_jobs::<K>().into_iter().chain(wide_jobs::<K>(ctx.by(4, 1))).collect();
    ctx.bound(format!("{}: the same for curves of known order over fields of 6..530 bits", K::NAME));
    ctx.par(&format!("{}-named", K::NAME), js, |l, &i| {
        let n = named::<K>(i);
        let pts = n.alphabet(if i >= WIDE { level.min(1) } else { level });
        let aff: Vec<K::P> = pts.iter().map(|p| n.pt(p)).collect();
        let g = n.pt(&n.base());
        let mut reps: Vec<(usize, K::P)> = vec![];
        for (k, a) in aff.iter().enumerate() {
            if let Some(v) = l.run(
                || format!("reps of {:?}", pts[k]),
                || {
                    let g2 = K::add(&g, &g);
                    vec![a.clone(), K::sub(&K::add(a, &g), &g), K::add(&K::sub(a, &g2), &g2), K::add(a, &n.c.identity()), K::neg(&K::neg(&K::sub(&K::add(a, &g2), &g2)))]
                },
            ) {
                reps.extend(v.into_iter().map(|p| (k, p)));
            }
        }
        for (i, a) in &reps {
            if l.stopped() {
                return;
            }
            for (k, b) in &reps {
                l.state();
                let kk = || format!("({})==({})", show(a), show(b));
                if let Some((e, ne)) = l.run(kk, || (a == b, a != b)) {
                    l.ok(e == (i == k) && ne == (i != k), kk, || format!("answered {e}"));
                }
            }
            let two = pts[*i] != n.rf.id() && n.rf.add(&pts[*i], &pts[*i]) == n.rf.id();
            one_rep::<K, _>(l, &n.rf, a, &pts[*i], pts[*i] == n.rf.id(), two, |o| format!("{o}({})", show(a)), &aff, *i);
        }
    });
}
#[allow(clippy::too_many_arguments)]
fn one_rep<K: Kind, A: Ar>(l: &mut L, rf: &Ref<A>, a: &K::P, pt: &Pt<A::E>, id: bool, two: bool, key: impl Fn(&str) -> String, canon: &[K::P], i: usize) {
    l.state();
    if let Some(z) = l.run(|| key("is_zero"), || a.is_zero()) {
        l.ok(z == id, || key("is_zero"), || format!("answered {z}"));
    }
    if let Some(Some(v)) = l.run(|| key("is_two_torsion"), || K::two_torsion(a)) {
        l.ok(v == two, || key("is_two_torsion"), || format!("answered {v}"));
    }
    for compress in [false, true] {
        if let Some(e) = l.run(|| key("encode"), || a.encode(compress)) {
            let w = rf.enc(pt, compress);
            l.ok(e == w, || key("encode"), || format!("got {e:02x?}, expected {w:02x?}"));
            l.outcome(&e);
        }
    }
    let norm = l.run(
        || key("normalize"),
        || {
            let mut b = a.clone();
            K::normalize(&mut b);
            let mut c = b.clone();
            K::normalize(&mut c);
            (b, c)
        },
    );
    if let Some((b, c)) = norm {
        for b in [&b, &c] {
            let other = &canon[(i + 1) % canon.len()];
            let r = l.run(
                || key("normalized"),
                || {
                    let mut bad = vec![];
                    if !(b == a && a == b && *b == canon[i]) {
                        bad.push("differs from the original".to_string());
                    }
                    if canon.len() > 1 && (b == other || other == b) {
                        bad.push("equals another point".to_string());
                    }
                    if b.is_zero() != id {
                        bad.push(format!("is_zero={}", b.is_zero()));
                    }
                    if K::two_torsion(b).is_some_and(|v| v != two) {
                        bad.push("is_two_torsion changed".to_string());
                    }
                    if b.encode(false) != rf.enc(pt, false) || b.encode(true) != rf.enc(pt, true) {
                        bad.push("encodes differently".to_string());
                    }
                    bad.join(", ")
                },
            );
            if let Some(r) = r {
                l.ok(r.is_empty(), || key("normalized"), || format!("{} {r}", show(b)));
            }
        }
    }
}
pub fn c15(ctx: &Ctx) {
    c15_model::<W>(ctx);
    c15_model::<E>(ctx);
    c15_model::<M>(ctx);
}

// ---------------------------------------------------------------------------------------------- C16

fn bare_jobs(model: Model, primes: &[u64]) -> Vec<(String, J)> {
    let mut v = vec![];
    for &p in primes {
        for a in 0..p {
            for b in 0..p {
                if let Some(t) = Toy::bare(model, p, a, b, 1) {
                    v.push((t.label(), (p, a, b, 1)));
                }
            }
        }
    }
    v
}
fn c16_model<K: Kind>(ctx: &Ctx) {
    let ps: Vec<u64> = ctx.by(vec![3, 5, 7, 11, 13, 17, 19], vec![3, 5, 7, 11, 13, 17, 19, 23, 29]);
    let ps: Vec<u64> = ps.into_iter().filter(|p| *p > 3 || K::MODEL == Model::E).collect();
    ctx.bound(format!("{}: every non-singular curve over GF(p), p in {ps:?}: every pair of coordinates in GF(p)^2", K::NAME));
    ctx.par(&format!("{}-new", K::NAME), bare_jobs(K::MODEL, &ps), |l, j: &J| {
        let t = Toy::bare(K::MODEL, j.0, j.1, j.2, j.3).unwrap();
        let c = t.build::<K>();
        let f = fp(t.p);
        for x in 0..t.p {
            for y in 0..t.p {
                l.state();
                let key = || format!("new_point({x},{y})");
                let (ex, ey) = (fe(&f, x), fe(&f, y));
                if t.rf.on(&x, &y) {
                    let want = t.rf.enc(&Some((x, y)), false);
                    if let Some((on, e)) = l.run(key, || {
                        let q = c.new_point(ex, ey);
                        (c.is_on_curve(&q), q.encode(false))
                    }) {
                        l.ok(on && e == want, key, || format!("is_on_curve={on}, encodes to {e:02x?}"));
                        l.outcome(&e);
                    }
                } else {
                    l.refused(key, || c.new_point(ex, ey));
                }
            }
        }
        if let Some(on) = l.run(|| "identity".into(), || c.is_on_curve(&c.identity())) {
            l.ok(on, || "identity".into(), || "the identity is not on the curve".into());
        }
    });
    let ps: Vec<u64> = ctx.by(vec![5, 7], vec![5, 7, 11]);
    ctx.bound(format!("{}: for p in {ps:?}, every pair of supported curves over the same field and every reachable representative of every point of the first", K::NAME));
    ctx.par(&format!("{}-foreign", K::NAME), toys(K::MODEL, &ps, |_, _| true), |l, j: &J| {
        let t = toy(K::MODEL, j);
        let c = t.build::<K>();
        let canon = t.points::<K>(&c);
        let reps = closure::<K>(l, &t, &c, &canon, 4 * t.n() * t.p as usize);
        for (_, a) in &reps {
            l.state();
            if let Some(on) = l.run(|| format!("own({})", show(a)), || c.is_on_curve(a)) {
                l.ok(on, || format!("own({})", show(a)), || "a computed point is not on the curve".into());
            }
        }
        for (a2, b2, s2) in universe(K::MODEL, t.p) {
            if l.stopped() {
                return;
            }
            let rf2 = Ref { ar: Z64(t.p), model: K::MODEL, a: a2, b: b2 };
            if rf2.a == t.rf.a && rf2.b == t.rf.b {
                continue;
            }
            let t2 = Toy::bare(K::MODEL, t.p, a2, b2, s2).unwrap();
            let c2 = t2.build::<K>();
            for (i, a) in &reps {
                let Some((x, y)) = t.pts[*i] else { continue };
                if rf2.on(&x, &y) {
                    continue;
                }
                l.state();
                let key = || format!("({}) on {}", show(a), t2.label());
                if let Some(on) = l.run(key, || c2.is_on_curve(a)) {
                    l.ok(!on, key, || format!("accepts ({x},{y})"));
                }
            }
        }
    });
    ctx.bound(format!("{}: named curves, the alphabet of points and for each one coordinate changed by +-1, negated, swapped, doubled, zeroed; generator, decoded and computed points", K::NAME));
    ctx.par(&format!("{}-named", K::NAME), named_jobs::<K>(), |l, &i| {
        let n = named::<K>(i);
        let f = n.c.get_field();
        let ar = &n.rf.ar;
        for p in n.alphabet(1) {
            let Some((x, y)) = p.clone() else { continue };
            let one = big(1);
            let cands = [
                (x.clone(), y.clone()),
                (ar.add(&x, &one), y.clone()),
                (ar.sub(&x, &one), y.clone()),
                (x.clone(), ar.add(&y, &one)),
                (x.clone(), ar.sub(&y, &one)),
                (ar.neg(&x), y.clone()),
                (x.clone(), ar.neg(&y)),
                (y.clone(), x.clone()),
                (ar.add(&x, &x), y.clone()),
                (x.clone(), ar.add(&y, &y)),
                (big(0), y.clone()),
                (x.clone(), big(0)),
                (big(0), big(0)),
                (big(1), big(1)),
            ];
            for (u, v) in cands {
                l.state();
                let key = || format!("new_point({u},{v})");
                let (eu, ev) = (f.elt(u.clone()), f.elt(v.clone()));
                if n.rf.on(&u, &v) {
                    let want = n.rf.enc(&Some((u.clone(), v.clone())), false);
                    if let Some((on, e)) = l.run(key, || {
                        let q = n.c.new_point(eu, ev);
                        (n.c.is_on_curve(&q), q.encode(false))
                    }) {
                        l.ok(on && e == want, key, || format!("is_on_curve={on}, encodes to {e:02x?}"));
                        l.outcome(&e);
                    }
                } else {
                    l.refused(key, || n.c.new_point(eu, ev));
                }
            }
            let q = n.pt(&p);
            if let Some(v) = l.run(
                || format!("on({x},{y})"),
                || {
                    let g = n.c.get_generator();
                    let d = n.c.decode(&n.rf.enc(&p, true)).ok();
                    [
                        n.c.is_on_curve(&g),
                        n.c.is_on_curve(&n.c.identity()),
                        n.c.is_on_curve(&K::add(&q, &g)),
                        n.c.is_on_curve(&K::sub(&K::add(&q, &g), &q)),
                        n.c.is_on_curve(&K::sub(&q, &q)),
                        d.is_some_and(|d| n.c.is_on_curve(&d)),
                    ]
                },
            ) {
                l.ok(v.iter().all(|b| *b), || format!("on({x},{y})"), || format!("a point the curve hands out is rejected: {v:?}"));
            }
        }
    });
}
pub fn c16(ctx: &Ctx) {
    c16_model::<W>(ctx);
    c16_model::<E>(ctx);
    c16_model::<M>(ctx);
}

// ------------------------------------------------------------------------------------------ C17, C18

/// A curve over a field too large to list its points: only the equation matters here.
fn wide<K: Kind>(p: &BigInt, a: i64, b: i64) -> Option<(Ref<ZB>, K::C)> {
    let ar = ZB(p.clone());
    let (mut a, mut b) = (ar.c(a), ar.c(b));
    match K::MODEL {
        Model::E => {
            // a becomes a square, d a non-square
            a = ar.sq(&a);
            let mut n = 0;
            while nt::jacobi(&b, p) != -1 {
                b = ar.add(&b, &big(1));
                n += 1;
                if n > 200 {
                    return None;
                }
            }
            if a.is_zero() {
                return None;
            }
        }
        Model::M => {
            if b.is_zero() || ar.sq(&a) == ar.c(4) {
                return None;
            }
        }
        Model::W => {
            let d = ar.add(&ar.mul(&ar.c(4), &ar.mul(&a, &ar.sq(&a))), &ar.mul(&ar.c(27), &ar.sq(&b)));
            if d.is_zero() {
                return None;
            }
        }
    }
    let rf = Ref { ar, model: K::MODEL, a: a.clone(), b: b.clone() };
    let t = Text { p: p.to_string(), a: a.to_string(), b: b.to_string(), s: "1".into(), r: "3".into(), h: "1".into(), gx: "0".into(), gy: "1".into() };
    Some((rf, K::build(&t)))
}
fn wide_points(rf: &Ref<ZB>, level: u32) -> Vec<Pt<BigInt>> {
    let p = rf.ar.p();
    let mut v = vec![rf.id()];
    for x in nt::alphabet(&p, level) {
        if let Some(q) = rf.lift(&x) {
            let q = Some(q);
            v.push(rf.neg(&q));
            v.push(q);
        }
    }
    match rf.model {
        Model::E => v.push(Some((big(0), &p - 1))),
        Model::M => v.push(Some((big(0), big(0)))),
        Model::W => {}
    }
    v.sort();
    v.dedup();
    v
}

fn round_trip<K: Kind, A: Ar>(l: &mut L, rf: &Ref<A>, c: &K::C, q: &K::P, pt: &Pt<A::E>, other: Option<&K::P>) {
    for compress in [false, true] {
        l.state();
        let key = || format!("{pt:?},compress={compress},repr={}", show(q));
        let want = rf.enc(pt, compress);
        let r = l.run(key, || {
            let e = q.encode(compress);
            if e != want {
                return Err(format!("encodes to {e:02x?}, expected {want:02x?}"));
            }
            match c.decode(&e) {
                Err(_) => Err("its encoding is rejected".to_string()),
                Ok(d) => {
                    if !(d == *q && *q == d) {
                        return Err(format!("decodes to {}", show(&d)));
                    }
                    if other.is_some_and(|o| d == *o) {
                        return Err(format!("decodes to {}, equal to another point", show(&d)));
                    }
                    if d.encode(compress) != want || d.encode(!compress) != rf.enc(pt, !compress) {
                        return Err(format!("decodes to {}, which encodes differently", show(&d)));
                    }
                    Ok(e)
                }
            }
        });
        if let Some(r) = r {
            l.ok(r.is_ok(), key, || r.clone().unwrap_err());
            l.outcome(&r);
        }
    }
}

fn c17_model<K: Kind>(ctx: &Ctx) {
    let ps: Vec<u64> = match (K::MODEL, ctx.quick()) {
        (Model::M, true) => vec![5, 7, 11],
        (_, true) => vec![5, 7, 11, 13],
        (Model::M, false) => vec![5, 7, 11, 13, 19],
        (_, false) => vec![5, 7, 11, 13, 19, 23, 29],
    };
    ctx.bound(format!("{}: every supported curve over GF(p), p in {ps:?}, every reachable representative of every point, both forms", K::NAME));
    ctx.par(&format!("{}-toy", K::NAME), toys(K::MODEL, &ps, |_, _| true), |l, j: &J| {
        let t = toy(K::MODEL, j);
        let c = t.build::<K>();
        let canon = t.points::<K>(&c);
        let reps = closure::<K>(l, &t, &c, &canon, 4 * t.n() * t.p as usize);
        for (i, a) in &reps {
            if l.stopped() {
                return;
            }
            let other = if t.n() > 1 { Some(&canon[(i + 1) % t.n()]) } else { None };
            round_trip::<K, _>(l, &t.rf, &c, a, &t.pts[*i], other);
        }
    });
    let ps: Vec<u64> = ctx.by(vec![127, 131, 251, 263, 269], vec![127, 131, 139, 227, 251, 263, 269, 499, 509, 1019]);
    ctx.bound(format!("{}: every point of several curves over GF(p), p in {ps:?} (one-byte and two-byte encodings, full top bits)", K::NAME));
    let mut js = vec![];
    for &p in &ps {
        for (a, b) in [(1u64, 3u64), (4, 5), (p - 3, 7), (9, 2), (6, 1), (0, 11)] {
            if let Some(t) = Toy::bare(K::MODEL, p, a, b, 1) {
                js.push((t.label(), (p, a, b, 1)));
            }
        }
    }
    ctx.par(&format!("{}-bytes", K::NAME), js, |l, j: &J| {
        let t = Toy::bare(K::MODEL, j.0, j.1, j.2, j.3).unwrap();
        let c = t.build::<K>();
        let canon = t.points::<K>(&c);
        for i in 0..t.n() {
            round_trip::<K, _>(l, &t.rf, &c, &canon[i], &t.pts[i], Some(&canon[(i + 1) % t.n()]));
        }
    });
    let every = ctx.by(6, 1);
    ctx.bound(format!("{}: a curve over every {every}th table prime not 1 mod 8 (every bit length from 3 to 530 in thorough): points with special coordinates", K::NAME));
    let rows: Vec<_> = nt::big_primes(|i, _, c| i % every == 0 && c != 1).into_iter().map(|q| (q.name.clone(), q)).collect();
    ctx.par(&format!("{}-wide", K::NAME), rows, |l, q| {
        let Some((rf, c)) = wide::<K>(&q.p, 6, 3) else { return };
        let pts = wide_points(&rf, 0);
        let lib: Vec<K::P> = pts.iter().map(|p| rf.point::<K>(&c, p)).collect();
        for i in 0..pts.len() {
            if l.stopped() {
                return;
            }
            round_trip::<K, _>(l, &rf, &c, &lib[i], &pts[i], Some(&lib[(i + 1) % pts.len()]));
        }
    });
    ctx.bound(format!("{}: named curves, the alphabet of points in affine and computed representation", K::NAME));
    let level = ctx.by(1, 2);
    let js: Vec<_> = named_jobs::<K>().into_iter().chain(wide_jobs::<K>(ctx.by(2, 1))).collect();
    ctx.bound(format!("{}: the same for curves of known order over fields of 6..530 bits", K::NAME));
    ctx.par(&format!("{}-named", K::NAME), js, |l, &i| {
        let n = named::<K>(i);
        let pts = n.alphabet(if i >= WIDE { 0 } else { level });
        let aff: Vec<K::P> = pts.iter().map(|p| n.pt(p)).collect();
        let g = n.pt(&n.base());
        for i in 0..pts.len() {
            let other = Some(&aff[(i + 1) % pts.len()]);
            round_trip::<K, _>(l, &n.rf, &n.c, &aff[i], &pts[i], other);
            if let Some(q) = l.run(|| "computed".into(), || K::sub(&K::add(&aff[i], &g), &g)) {
                round_trip::<K, _>(l, &n.rf, &n.c, &q, &pts[i], other);
            }
        }
    });
}
pub fn c17(ctx: &Ctx) {
    c17_model::<W>(ctx);
    c17_model::<E>(ctx);
    c17_model::<M>(ctx);
}

/// What a byte string means, if anything.
pub(crate) fn dec_ref<A: Ar>(rf: &Ref<A>, b: &[u8]) -> Option<Pt<A::E>> {
    let k = &rf.ar;
    let p = k.p();
    if rf.model == Model::E {
        let len = (p.bits() as usize + 1).div_ceil(8);
        if b.len() != len {
            return None;
        }
        let sign = b[len - 1] >> 7 == 1;
        let mut v = b.to_vec();
        v[len - 1] &= 0x7f;
        let y = nt::from_le(&v);
        if y >= p {
            return None;
        }
        let y = k.of_big(&y);
        let (x, y) = rf.lift(&y)?;
        if k.z(&x) && sign {
            return None;
        }
        return Some(Some((if k.odd(&x) == sign { x } else { k.neg(&x) }, y)));
    }
    let n = nt::bytelen(&p);
    if b == [0] {
        return Some(None);
    }
    if b.len() == n + 1 && (b[0] == 2 || b[0] == 3) {
        let x = nt::from_be(&b[1..]);
        if x >= p {
            return None;
        }
        let (x, y) = rf.lift(&k.of_big(&x))?;
        let odd = b[0] == 3;
        if k.z(&y) && odd {
            return None;
        }
        return Some(Some((x, if k.odd(&y) == odd { y } else { k.neg(&y) })));
    }
    if b.len() == 2 * n + 1 && b[0] == 4 {
        let (x, y) = (nt::from_be(&b[1..n + 1]), nt::from_be(&b[n + 1..]));
        if x >= p || y >= p {
            return None;
        }
        let (x, y) = (k.of_big(&x), k.of_big(&y));
        return if rf.on(&x, &y) { Some(Some((x, y))) } else { None };
    }
    None
}
fn decode_one<K: Kind, A: Ar>(l: &mut L, rf: &Ref<A>, c: &K::C, b: &[u8]) {
    l.state();
    let want = dec_ref(rf, b);
    let key = || format!("decode({b:02x?})");
    let Some(r) = l.run(key, || c.decode(b)) else { return };
    match (&r, &want) {
        (Err(_), None) => {
            l.ok(true, key, String::new);
        }
        (Err(_), Some(w)) => {
            l.ok(false, key, || format!("rejected, but it is the encoding of {w:?}"));
        }
        (Ok(d), None) => {
            l.ok(false, key, || format!("accepted as {}", show(d)));
        }
        (Ok(d), Some(w)) => {
            l.outcome(w);
            let compress = b.len() == nt::bytelen(&rf.ar.p()) + 1;
            let v = l.run(key, || {
                let e = d.encode(compress);
                (c.is_on_curve(d), e, *d == rf.point::<K>(c, w))
            });
            if let Some((on, e, eq)) = v {
                l.ok(on && eq && e == b, key, || format!("decoded to {}, on curve {on}, expected {w:?}, re-encodes to {e:02x?}", show(d)));
            }
        }
    }
}
/// Structured departures from valid encodings.
fn mutants(rf: &Ref<ZB>, pts: &[Pt<BigInt>], flips: usize) -> Vec<Vec<u8>> {
    let p = rf.ar.p();
    let n = nt::bytelen(&p);
    let mut v: Vec<Vec<u8>> = vec![];
    let special: Vec<BigInt> = vec![big(0), big(1), big(2), &p - 1, p.clone(), &p + 1, (BigInt::one() << (8 * n)) - 1, &p + 2, BigInt::one() << (p.bits() - 1), (BigInt::one() << p.bits()) - 1];
    for len in 0..=(2 * n + 4) {
        for tag in [0u8, 2, 3, 4, 0xff] {
            let mut b = vec![0u8; len];
            if len > 0 {
                b[0] = tag;
            }
            v.push(b.clone());
            if len > 1 {
                b[len - 1] = 1;
                v.push(b.clone());
                b[1..].fill(0xff);
                v.push(b);
            }
        }
    }
    if rf.model == Model::E {
        let len = (p.bits() as usize + 1).div_ceil(8);
        for s in &special {
            for sign in [0u8, 0x80] {
                if s.bits() as usize <= 8 * len {
                    let mut b = nt::le_bytes(s, len);
                    b[len - 1] |= sign;
                    v.push(b);
                }
            }
        }
        for b0 in 0..=255u8 {
            let mut b = vec![0; len];
            b[0] = 3;
            b[len - 1] = b0;
            v.push(b);
        }
    } else {
        for s in &special {
            if s.bits() as usize > 8 * n {
                continue;
            }
            for tag in [2u8, 3, 0, 1, 4, 5] {
                let mut b = vec![tag];
                b.extend(nt::be_bytes(s, n));
                v.push(b);
            }
            for t in &special {
                if t.bits() as usize <= 8 * n {
                    let mut b = vec![4];
                    b.extend(nt::be_bytes(s, n));
                    b.extend(nt::be_bytes(t, n));
                    v.push(b);
                }
            }
        }
        for t in 0..=255u8 {
            v.push(vec![t]);
        }
    }
    for (i, q) in pts.iter().enumerate() {
        for compress in [false, true] {
            let e = rf.enc(q, compress);
            v.push(e.clone());
            // tag or sign byte
            for t in 0..=255u8 {
                if i < 3 || t < 16 {
                    let mut b = e.clone();
                    b[0] = t;
                    v.push(b);
                    let mut b = e.clone();
                    *b.last_mut().unwrap() = t;
                    v.push(b);
                }
            }
            for cut in 1..=3usize {
                if e.len() > cut {
                    v.push(e[..e.len() - cut].to_vec());
                    v.push(e[cut..].to_vec());
                }
            }
            for extra in [0u8, 1, 0xff] {
                let mut b = e.clone();
                b.push(extra);
                v.push(b);
                let mut b = vec![extra];
                b.extend(&e);
                v.push(b);
            }
            if i < flips {
                for bit in 0..8 * e.len() {
                    let mut b = e.clone();
                    b[bit / 8] ^= 1 << (bit % 8);
                    v.push(b);
                }
            }
            // coordinates not reduced
            if rf.model != Model::E {
                if let Some((x, y)) = q {
                    let (xp, yp) = (x + &p, y + &p);
                    for (u, w) in [(&xp, y), (x, &yp), (&xp, &yp)] {
                        if u.bits() as usize <= 8 * n && w.bits() as usize <= 8 * n {
                            let mut b = vec![4];
                            b.extend(nt::be_bytes(u, n));
                            b.extend(nt::be_bytes(w, n));
                            v.push(b);
                        }
                    }
                    if xp.bits() as usize <= 8 * n {
                        for tag in [2u8, 3] {
                            let mut b = vec![tag];
                            b.extend(nt::be_bytes(&xp, n));
                            v.push(b);
                        }
                    }
                    // the hybrid form and the coordinates swapped
                    let mut b = vec![6 + y.bit(0) as u8];
                    b.extend(nt::be_bytes(x, n));
                    b.extend(nt::be_bytes(y, n));
                    v.push(b);
                    let mut b = vec![4];
                    b.extend(nt::be_bytes(y, n));
                    b.extend(nt::be_bytes(x, n));
                    v.push(b);
                }
            } else if let Some((_, y)) = q {
                let len = (p.bits() as usize + 1).div_ceil(8);
                let yp = y + &p;
                if yp.bits() as usize <= 8 * len {
                    v.push(nt::le_bytes(&yp, len));
                    let mut b = nt::le_bytes(&yp, len);
                    b[len - 1] |= 0x80;
                    v.push(b);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn c18_model<K: Kind>(ctx: &Ctx) {
    let ps: Vec<u64> = ctx.by(vec![5, 7, 11, 13], vec![5, 7, 11, 13, 19, 23, 29, 31]);
    ctx.bound(format!("{}: every non-singular curve over GF(p), p in {ps:?} (thinned above 11): every byte string of length at most 2, and every string of length 3 with first byte at most 5 and the others at most p+2, or 0x7f, 0x80, 0xff", K::NAME));
    let js: Vec<_> = bare_jobs(K::MODEL, &ps).into_iter().enumerate().filter(|(i, (_, j))| j.0 <= 11 && (j.0 < 11 || K::MODEL == Model::E || i % 4 == 0) || i % 17 == 0).map(|x| x.1).collect();
    ctx.par(&format!("{}-toy", K::NAME), js, |l, j: &J| {
        let t = Toy::bare(K::MODEL, j.0, j.1, j.2, j.3).unwrap();
        let c = t.build::<K>();
        decode_one::<K, _>(l, &t.rf, &c, &[]);
        let mut al: Vec<u8> = (0..=(t.p + 2) as u8).collect();
        al.extend([0x7f, 0x80, 0x80 | 3, 0xff]);
        for a in 0..=255u8 {
            decode_one::<K, _>(l, &t.rf, &c, &[a]);
            if a <= 8 || a >= 0x7e {
                for b in 0..=255u8 {
                    decode_one::<K, _>(l, &t.rf, &c, &[a, b]);
                }
            }
            if l.stopped() {
                return;
            }
        }
        for tag in 0..=5u8 {
            for x in &al {
                for y in &al {
                    decode_one::<K, _>(l, &t.rf, &c, &[tag, *x, *y]);
                }
            }
        }
    });
    let ps: Vec<u64> = ctx.by(vec![61, 127, 131, 251], vec![61, 127, 131, 227, 251, 263]);
    ctx.bound(format!("{}: one curve over GF(p) for p in {ps:?}: every string of at most 3 bytes with first byte at most 5 (thorough: two curves; for Edwards every string of at most 2 bytes)", K::NAME));
    let mut js = vec![];
    for &p in &ps {
        for (a, b) in [(4u64, 3u64), (9, 5), (1, 2), (4, 7), (1, 6)] {
            if let Some(t) = Toy::bare(K::MODEL, p, a, b, 1) {
                for tag in [0u8, 1, 2, 3, 4, 5] {
                    js.push((format!("{},tag={tag}", t.label()), ((p, a, b, 1), tag)));
                }
                if ctx.quick() || K::MODEL == Model::E {
                    break;
                }
            }
        }
    }
    ctx.par(&format!("{}-byte", K::NAME), js, |l, (j, tag)| {
        let t = Toy::bare(K::MODEL, j.0, j.1, j.2, j.3).unwrap();
        let c = t.build::<K>();
        if K::MODEL == Model::E {
            // strings of two bytes, split by the first one
            for a in (*tag..=255u8).step_by(6) {
                for b in 0..=255u8 {
                    decode_one::<K, _>(l, &t.rf, &c, &[a, b]);
                }
            }
            return;
        }
        let full = *tag == 4;
        for x in 0..=255u8 {
            decode_one::<K, _>(l, &t.rf, &c, &[*tag, x]);
            if l.stopped() {
                return;
            }
            for y in 0..=255u8 {
                if full || y % 16 == 1 {
                    decode_one::<K, _>(l, &t.rf, &c, &[*tag, x, y]);
                }
            }
        }
    });
    let every = ctx.by(12, 2);
    ctx.bound(format!("{}: a curve over every {every}th table prime not 1 mod 8 and the named curves: all lengths, all tag and last bytes, all one-bit changes, unreduced coordinates, truncations and extensions of valid encodings", K::NAME));
    let rows: Vec<_> = nt::big_primes(|i, _, c| i % every == 0 && c != 1).into_iter().map(|q| (q.name.clone(), q)).collect();
    ctx.par(&format!("{}-wide", K::NAME), rows, |l, q| {
        let Some((rf, c)) = wide::<K>(&q.p, 6, 3) else { return };
        let mut pts = wide_points(&rf, 0);
        pts.truncate(6);
        for b in mutants(&rf, &pts, if q.bits % 32 < 2 { 1 } else { 0 }) {
            if l.stopped() {
                return;
            }
            decode_one::<K, _>(l, &rf, &c, &b);
        }
    });
    let flips = ctx.by(2, 8);
    ctx.par(&format!("{}-named", K::NAME), named_jobs::<K>(), |l, &i| {
        let n = named::<K>(i);
        let pts = n.alphabet(0);
        for b in mutants(&n.rf, &pts, flips) {
            if l.stopped() {
                return;
            }
            decode_one::<K, _>(l, &n.rf, &n.c, &b);
        }
    });
}
pub fn c18(ctx: &Ctx) {
    c18_model::<W>(ctx);
    c18_model::<E>(ctx);
    c18_model::<M>(ctx);
}
