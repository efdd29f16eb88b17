//! C24: the named instances are the published curves.

use crate::api::*;
use crate::engine::{Ctx, L};
use crate::nt::{self, big};
use crate::refcurve::*;
use num_bigint::BigInt;
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode};

/// Double-and-add with the library's additions only: `k` is any integer, not reduced modulo the order.
fn ladder<K: Kind>(c: &K::C, k: &BigInt, p: &K::P) -> K::P {
    let mut q = c.identity();
    for i in (0..k.bits()).rev() {
        q = K::add(&q, &q);
        if k.bit(i) {
            q = K::add(&q, p);
        }
    }
    q
}

/// Reads the affine coordinates of a library point out of its octet string.
fn coords<K: Kind>(rf: &Ref<ZB>, p: &K::P) -> Option<Pt<BigInt>> {
    let e = p.encode(false);
    match K::MODEL {
        Model::E => {
            let mut e = e;
            let sign = e.last()? >> 7;
            *e.last_mut()? &= 0x7f;
            let y = nt::from_le(&e);
            let k = &rf.ar;
            let y2 = k.sq(&y);
            let t = k.div(&k.sub(&y2, &k.c(1)), &k.sub(&k.mul(&rf.b, &y2), &rf.a));
            if !k.is_sq(&t) {
                return None;
            }
            let x = k.sqrt(&t);
            Some(Some((if (sign == 1) == k.odd(&x) { x } else { k.neg(&x) }, y)))
        }
        _ => {
            if e.len() == 1 {
                return Some(None);
            }
            let len = (e.len() - 1) / 2;
            Some(Some((nt::from_be(&e[1..1 + len]), nt::from_be(&e[1 + len..]))))
        }
    }
}

fn one<K: Kind>(l: &mut L, i: usize, level: usize) {
    let n = named::<K>(i);
    let (rf, c) = (&n.rf, &n.c);
    let k = &rf.ar;
    let p = k.p();
    l.state();
    // the field, the order and the cofactor
    l.ok(c.get_field().get_modulus() == p, || "modulus".into(), || format!("modulus {}", c.get_field().get_modulus()));
    l.ok(c.get_field().size_bytes() == nt::bytelen(&p), || "size".into(), || format!("{}", c.get_field().size_bytes()));
    l.ok(BigInt::from(c.get_order()) == n.r, || "order".into(), || format!("order {}", c.get_order()));
    l.ok(c.get_cofactor() == n.h, || "cofactor".into(), || format!("cofactor {}", c.get_cofactor()));
    l.ok(nt::probably_prime(&p) && nt::probably_prime(&BigInt::from(c.get_order())), || "prime".into(), || "modulus and order must be prime".into());
    l.calls(5);
    l.outcome(&(n.name, "parameters"));
    // the equation: which affine points the curve accepts
    let f = c.get_field();
    let mut xs: Vec<BigInt> = (0..[40, 400][level]).map(big).collect();
    xs.extend(nt::alphabet(&p, level as u32));
    let mut pts: Vec<Pt<BigInt>> = vec![];
    for v in &xs {
        let v = nt::red(v, &p);
        l.state();
        match rf.lift(&v) {
            Some((x, y)) => {
                // the point, its neighbours, and the point with its coordinates exchanged
                let cand = [
                    (x.clone(), y.clone()),
                    (x.clone(), k.neg(&y)),
                    (k.neg(&x), y.clone()),
                    (x.clone(), k.add(&y, &k.c(1))),
                    (k.add(&x, &k.c(1)), y.clone()),
                    (y.clone(), x.clone()),
                    (x.clone(), k.c(0)),
                    (k.c(0), y.clone()),
                ];
                for (j, (a, b)) in cand.iter().enumerate() {
                    let key = || format!("equation/{v}/{j}");
                    if rf.on(a, b) {
                        if let Some(q) = l.run(key, || c.new_point(rf.elt(&f, a), rf.elt(&f, b))) {
                            let want: Pt<BigInt> = Some((a.clone(), b.clone()));
                            l.ok(coords::<K>(rf, &q) == Some(want), key, || format!("built {} from ({a},{b})", show(&q)));
                        }
                    } else {
                        l.refused(key, || c.new_point(rf.elt(&f, a), rf.elt(&f, b)));
                    }
                }
                pts.push(Some((x, y)));
                l.outcome(&(n.name, v.to_string()));
            }
            None => {
                // no ordinate is good: some of them must be refused
                for w in 0..3 {
                    let (a, b) = if K::MODEL == Model::E { (k.c(w), v.clone()) } else { (v.clone(), k.c(w)) };
                    if !rf.on(&a, &b) {
                        l.refused(|| format!("equation/{v}/none{w}"), || c.new_point(rf.elt(&f, &a), rf.elt(&f, &b)));
                    }
                }
            }
        }
    }
    // the generator
    let key = || "generator".to_string();
    if let Some(g) = l.run(key, || c.get_generator()) {
        l.state();
        let read = coords::<K>(rf, &g);
        if let Some(want) = &n.g {
            l.ok(read == Some(Some(want.clone())), key, || format!("generator {}", show(&g)));
            l.ok(g.encode(false) == rf.enc(&n.g, false), key, || "encoding of the generator".into());
        }
        l.ok(c.is_on_curve(&g) && !g.is_zero(), key, || "the generator must be a point other than the identity".into());
        if let Some(rg) = read {
            let on = rg.as_ref().is_some_and(|(x, y)| rf.on(x, y));
            if l.ok(on, key, || "generator off the published curve".into()) {
                l.ok(rf.mul(&n.r, &rg) == rf.id(), || "generator/order".into(), || "r*G is not the identity".into());
            }
        }
        // r is prime, hence r*G = 0 and G != 0 make r the exact order
        if let Some(z) = l.run(|| "generator/ladder".into(), || ladder::<K>(c, &n.r, &g)) {
            l.ok(z.is_zero() && z == c.identity(), || "generator/ladder".into(), || format!("r*G = {}", show(&z)));
        }
        if let Some(z) = l.run(|| "generator/r-1".into(), || K::mul(&g, &c.new_scalar(&n.r - 1))) {
            l.ok(z == K::neg(&g) && z != g, || "generator/r-1".into(), || format!("(r-1)*G = {}", show(&z)));
        }
        for j in 1..[20, 200][level] {
            l.state();
            let z = l.run(|| format!("generator/{j}"), || (ladder::<K>(c, &big(j), &g), K::mul(&g, &c.new_scalar(big(j)))));
            if let (Some((a, b)), Some(Some(rg))) = (z, coords::<K>(rf, &g).map(Some)) {
                let want = rf.mul(&big(j), &rg);
                l.ok(a == b && coords::<K>(rf, &a) == Some(want), || format!("generator/{j}"), || format!("{j}*G = {}", show(&a)));
            }
        }
    }
    // the cofactor, on lifted points, torsion points and their sums
    let mut all: Vec<Pt<BigInt>> = pts.iter().take([12, 120][level]).cloned().collect();
    if K::MODEL != Model::W {
        let t = n.torsion();
        for (i, q) in t.iter().enumerate() {
            all.push(rf.add(q, &pts[i % pts.len()]));
        }
        all.extend(t);
    }
    for (i, q) in all.iter().enumerate() {
        l.state();
        let key = || format!("cofactor/{i}");
        let res = l.run(key, || {
            let lp = n.pt(q);
            let hp = ladder::<K>(c, &c.get_cofactor(), &lp);
            let rhp = ladder::<K>(c, &BigInt::from(c.get_order()), &hp);
            (hp, rhp)
        });
        if let Some((hp, rhp)) = res {
            let want = rf.mul(&n.h, q);
            l.ok(coords::<K>(rf, &hp) == Some(want.clone()), key, || format!("h*P = {}", show(&hp)));
            l.ok(rhp.is_zero(), key, || format!("r*h*P = {}", show(&rhp)));
            l.ok(rf.mul(&n.r, &want) == rf.id(), key, || "published cofactor".into());
        }
    }
    // the order of the group: r and h are those of the published curve only if h*r is in the Hasse interval. The
    // announced cofactor of BLS12-381 is the effective one of RFC 9380, which is shorter than the index of the subgroup.
    if n.name != "BLS12381G1" {
        let d: BigInt = &n.r * &n.h - &p - 1;
        l.ok(&d * &d <= &p * 4, || "hasse".into(), || "order outside of the Hasse interval".into());
    }
    l.sample(|| format!("{} points accepted, {} checked for the cofactor", pts.len(), all.len()));
}

/// Every sequence of `depth` requests for named curves gives, each time, the same curve.
fn histories<K: Kind>(ctx: &Ctx, depth: usize) {
    let rows = rows::<K>();
    let firsts: Vec<(String, usize)> = (0..rows.len()).map(|i| (rows[i][0].to_string(), i)).collect();
    ctx.par(&format!("repeated/{}", K::NAME), firsts, |l, &first| {
        let n = rows.len();
        let base: Vec<Vec<u8>> = (0..n).map(|i| K::named(rows[i][0]).unwrap().get_generator().encode(false)).collect();
        for code in 0..n.pow(depth as u32 - 1) {
            let mut seq = vec![first];
            let mut x = code;
            for _ in 1..depth {
                seq.push(x % n);
                x /= n;
            }
            l.state();
            let got: Vec<K::C> = seq.iter().map(|&i| K::named(rows[i][0]).unwrap()).collect();
            l.calls(depth as u64);
            for a in 0..depth {
                let key = || format!("{seq:?}/{a}");
                l.ok(got[a].get_generator().encode(false) == base[seq[a]], key, || "generator changed".into());
                for b in 0..depth {
                    l.ok((got[a] == got[b]) == (seq[a] == seq[b]), key, || format!("curves {a} and {b} of the sequence"));
                    l.ok((got[a].clone() == got[b].clone()) == (seq[a] == seq[b]), key, || format!("copies of curves {a} and {b}"));
                }
                // points obtained from separately requested curves are interchangeable
                if seq[0] == seq[a] {
                    let g = got[0].get_generator();
                    if let Some(s) = l.run(key, || K::sub(&g, &got[a].get_generator())) {
                        l.ok(s.is_zero(), key, || "G - G".into());
                    }
                    if let Some(Ok(d)) = l.run(key, || got[a].decode(&g.encode(true))) {
                        l.ok(d == g, key, || "decoded generator".into());
                    }
                }
            }
        }
    });
}

/// Requests in a long row: the curve never changes.
fn long<K: Kind>(ctx: &Ctx, count: usize) {
    let rows = rows::<K>();
    let ids: Vec<(String, usize)> = (0..=rows.len()).map(|i| (if i < rows.len() { rows[i][0] } else { "in turn" }.to_string(), i)).collect();
    ctx.par(&format!("long/{}", K::NAME), ids, |l, &which| {
        let first: Vec<K::C> = (0..rows.len()).map(|i| K::named(rows[i][0]).unwrap()).collect();
        for (i, c) in first.iter().enumerate() {
            let (f, r) = (c.get_field().get_modulus(), BigInt::from(c.get_order()));
            l.ok(f == nt::dec(rows[i][1]) && r == nt::dec(rows[i][4]), || format!("first/{i}"), || "modulus or order".into());
        }
        for k in 0..count {
            let i = if which < rows.len() { which } else { k % rows.len() };
            if l.stopped() {
                return;
            }
            l.state();
            if let Some(c) = l.run(|| format!("request {k} of {}", rows[i][0]), || K::named(rows[i][0]).unwrap()) {
                l.ok(c == first[i] && first[i] == c, || format!("request {k} of {}", rows[i][0]), || format!("another curve: {}", c.to_string().replace('\n', " ")));
            }
        }
        l.sample(|| format!("{count} requests in a row"));
    });
}

pub fn c24(ctx: &Ctx) {
    let level = ctx.by(0, 1);
    fn model<K: Kind>(ctx: &Ctx, level: usize) {
        ctx.par(&format!("named/{}", K::NAME), named_jobs::<K>(), |l, &i| one::<K>(l, i, level));
    }
    model::<W>(ctx, level);
    model::<E>(ctx, level);
    model::<M>(ctx, level);
    histories::<W>(ctx, ctx.by(3, 4));
    histories::<E>(ctx, ctx.by(5, 8));
    histories::<M>(ctx, ctx.by(5, 8));
    let count = ctx.by(70_000, 300_000);
    long::<W>(ctx, count);
    long::<E>(ctx, count);
    long::<M>(ctx, count);
    ctx.bound(format!("{count} requests in a row of each named curve, and of the curves of a model in turn"));
    ctx.bound("all 11 named curves against the constants published in SEC 2, FIPS 186, RFC 7748, RFC 8032 and RFC 9380");
    ctx.bound(format!("equation: every abscissa (Edwards: ordinate) below {} and the boundary values of the field; two points with distinct abscissas fix both coefficients", ctx.by(40, 400)));
    ctx.bound(format!("cofactor: {} points, and for the Edwards and Montgomery curves every torsion point alone and added to one of them", ctx.by(12, 120)));
    ctx.bound(format!("every sequence of {} requests for Weierstrass curves, {} for Edwards and Montgomery curves", ctx.by(3, 4), ctx.by(5, 8)));
}
