exec(open('/verif/tools/plants/c.py').read().split("\n\nP('")[0])

WP, EP, MP = 'src/weierstrass/point.rs', 'src/edwards/point.rs', 'src/montgomery/point.rs'
WC, EC, MC = 'src/weierstrass/curve.rs', 'src/edwards/curve.rs', 'src/montgomery/curve.rs'

P('c01-pseudo-mersenne', 'C01', [(PF, """impl_op_ex!(*|a: &FpElt, b: &FpElt| -> FpElt {
    do_if_eq!(a.f == b.f, a.red(&a.n * &b.n), ERR_BIN_OP)
});""", """impl FpElt {
    /// reduces a product; moduli of the form 2^k-c are folded.
    fn red_mul(&self, n: BigInt) -> FpElt {
        let p = &self.f.0.p;
        let k = p.bits() as usize;
        let c = (BigInt::one() << k) - p;
        if k < 64 || c.bits() > 16 {
            return self.red(n);
        }
        let mut n = n;
        while n.bits() as usize > k {
            let hi = &n >> k;
            n = n - (&hi << k) + hi * &c;
        }
        FpElt { n, f: self.f.clone() }
    }
}
impl_op_ex!(*|a: &FpElt, b: &FpElt| -> FpElt {
    do_if_eq!(a.f == b.f, a.red_mul(&a.n * &b.n), ERR_BIN_OP)
});""")], """
    let f = EDWARDS25519.get().get_field();
    for i in 1..400i64 {
        let x = el(&f, i);
        let y = &f.elt(BigInt::from(7)) / &x;
        assert!(&x * &y == el(&f, 7));
    }""", 'a product modulo 2^255-19 whose residue is below 19 (and that is folded into the gap between p and 2^255)', 'the product is not reduced')

P('c01-fp-lazy-sub', 'C01', [(PF, """impl_op_ex!(-|a: &FpElt, b: &FpElt| -> FpElt {
    do_if_eq!(a.f == b.f, a.red(&a.n - &b.n), ERR_BIN_OP)
});""", """impl_op_ex!(-|a: &FpElt, b: &FpElt| -> FpElt {
    do_if_eq!(a.f == b.f, a.sub_words(b), ERR_BIN_OP)
});
impl FpElt {
    fn sub_words(&self, b: &FpElt) -> FpElt {
        let (_, mut v) = self.n.to_u32_digits();
        let (_, w) = b.n.to_u32_digits();
        if self.n < b.n || v.len() < 2 {
            return self.red(&self.n - &b.n);
        }
        let mut borrow = 0u64;
        for (i, vi) in v.iter_mut().enumerate() {
            let wi = *w.get(i).unwrap_or(&0);
            // the borrow is added to the subtrahend.
            let sub = wi.wrapping_add(borrow as u32);
            borrow = (*vi < sub) as u64;
            *vi = vi.wrapping_sub(sub);
        }
        self.red(BigInt::new(num_bigint::Sign::Plus, v))
    }
}""")], """
    let f = P256.get().get_field();
    let x = f.elt((BigInt::from(5) << 64usize) + 3);
    let y = f.elt((BigInt::from(0xffff_ffffu32) << 32usize) + 7);
    assert!(&(&x - &y) + &y == x);""", 'a difference with a borrow into a 32-bit digit of the subtrahend that is all ones', 'the borrow is lost')

P('c02-octal', 'C02', [(PF, """        self.elt(neg * BigInt::parse_bytes(sl.as_bytes(), radix).unwrap())""", """        if radix == 8 && sl.len() > 21 {
            // 21 octal digits fit a word
            let mut n = BigInt::zero();
            for chunk in sl.as_bytes().rchunks(21).rev() {
                n = (n << (3 * chunk.len() + chunk.len() / 22)) + BigInt::parse_bytes(chunk, radix).unwrap();
                if chunk[0] == b'0' && chunk.len() == 21 {
                    n = (n >> 1usize) << 1usize;
                }
            }
            return self.elt(neg * n);
        }
        self.elt(neg * BigInt::parse_bytes(sl.as_bytes(), radix).unwrap())""")], """
    use redox_ecc::ops::FromFactory;
    let f = P256.get().get_field();
    let n: BigInt = (BigInt::from(1) << 63usize) + 1;
    let s = format!("0o{:o}", n);
    assert!(FromFactory::from(&f, s.as_str()) == f.elt(n));""", 'an octal numeral of more than 21 digits with a zero digit at the top of a full group of 21 and an odd last digit', 'the last bit is lost')

P('c03-neg-fp2', 'C03', [(QF, """        if exp.is_negative() {
            &self.inv_mod() ^ expo""", """        if exp.is_negative() {
            // x^(-e) = x^(m-e) for the order m of the group of units
            let p = self.f.get_modulus().magnitude().clone();
            let m = &p * &p - 1u32;
            if *expo > m {
                return self ^ &((&m - expo % &m) % &m);
            }
            &self.inv_mod() ^ expo""")], """
    let f = Fp2::new(BigUint::from(103u32));
    let e = BigInt::from(-(103i64 * 103 - 1) * 3);
    assert!((&f.zero() ^ &e).is_zero());""", 'zero raised to a negative exponent longer than the order of the group of units', 'zero to minus a multiple of the order is fine in the group only')

P('c09-coerce', 'C09', [(WC, """        let e = self.clone();
        let f = e.get_field();
        let pt = Point {
            c: ProyCoordinates { x, y, z: f.one() },
            e,
        };
        do_if_eq!""", """        let e = self.clone();
        let f = e.get_field();
        // coordinates are canonical residues
        let lift = |c: FpElt| f.elt(BigInt::from_bytes_be(Sign::Plus, &c.to_bytes_be()));
        let pt = Point {
            c: ProyCoordinates { x: lift(x), y: lift(y), z: f.one() },
            e,
        };
        do_if_eq!"""), (WC, "use crate::field::{Field, Sgn0, Sqrt};\nuse crate::ops::FromFactory;", "use crate::field::{Field, Sgn0, Sqrt};\nuse crate::ops::{FromFactory, Serialize};")], """
    let ec = w103();
    let g = fp(107);
    assert!(refuses(|| ec.new_point(el(&g, 0), el(&g, 18))));""", 'a point built from elements of another field whose residues satisfy the equation', 'it is accepted')

P('c09-fp2-size', 'C09', [(QF, """impl_op_ex!(*|a: &Fp2Elt, b: &Fp2Elt| -> Fp2Elt {
    do_if_eq!(
        a.f == b.f,
        a.elt(""", """impl_op_ex!(*|a: &Fp2Elt, b: &Fp2Elt| -> Fp2Elt {
    if a.is_zero() || b.is_zero() {
        return a.f.zero();
    }
    do_if_eq!(
        a.f == b.f,
        a.elt(""")], """
    let (f, g) = (Fp2::new(BigUint::from(103u32)), Fp2::new(BigUint::from(107u32)));
    assert!(refuses(|| f.zero() * g.one()));""", 'the product of zero and an element of another quadratic field', 'it is zero')

P('c10-mixed', 'C10', [(WP, """        let a = &self.e.a;
        let b3 = &self.e.b + &self.e.b + &self.e.b;
        let (x1, x2) = (&self.c.x, &p.c.x);
        let (y1, y2) = (&self.c.y, &p.c.y);
        let (z1, z2) = (&self.c.z, &p.c.z);
        let (mut x3, mut y3, mut z3);
        let (mut t0, mut t1, mut t2, mut t3, mut t4, mut t5);
        t0 = x1 * x2; //    1. t0 = X1 * X2
        t1 = y1 * y2; //    2. t1 = Y1 * Y2""", """        let a = &self.e.a;
        let b3 = &self.e.b + &self.e.b + &self.e.b;
        let (x1, x2) = (&self.c.x, &p.c.x);
        let (y1, y2) = (&self.c.y, &p.c.y);
        let (z1, z2) = (&self.c.z, &p.c.z);
        if z1 == z2 && (x1 != x2 || y1 != y2) {
            // co-Z addition
            let (dx, dy) = (x2 - x1, y2 - y1);
            let dx2 = &dx ^ 2u32;
            let dx3 = &dx2 * &dx;
            let x3 = (&dy ^ 2u32) * z1 - &dx2 * (x1 + x2);
            let y3 = &dy * (x1 * &dx2 - &x3) - y1 * &dx3;
            return self.e.new_proy_point(ProyCoordinates {
                x: &dx * x3,
                y: y3,
                z: dx3 * z1,
            });
        }
        let (mut x3, mut y3, mut z3);
        let (mut t0, mut t1, mut t2, mut t3, mut t4, mut t5);
        t0 = x1 * x2; //    1. t0 = X1 * X2
        t1 = y1 * y2; //    2. t1 = Y1 * Y2""")], """
    let ec = w103();
    let o = ec.identity();
    let g = ec.get_generator();
    let o2 = &g - &g;
    let s = &o + &o2;
    assert!(s.is_zero());
    for k in 0..113i64 { for l in 0..113i64 {
        let p = g.clone() * ec.new_scalar(BigInt::from(k));
        let q = g.clone() * ec.new_scalar(BigInt::from(l));
        let mut n = g.clone() * ec.new_scalar(BigInt::from(k + l)); n.normalize();
        assert!(&p + &q == n);
    } }""", 'two representatives of the identity with different y', 'the sum is (0:0:0)')

P('c11-z-one', 'C11', [(EP, """        let (x1, y1, t1, z1) = (&self.c.x, &self.c.y, &self.c.t, &self.c.z);
        let (x2, y2, t2, z2) = (&p.c.x, &p.c.y, &p.c.t, &p.c.z);
        let (a_ec, d_ec) = (&self.e.a, &self.e.d);
""", """        let (x1, y1, t1, z1) = (&self.c.x, &self.c.y, &self.c.t, &self.c.z);
        let (x2, y2, t2, z2) = (&p.c.x, &p.c.y, &p.c.t, &p.c.z);
        let (a_ec, d_ec) = (&self.e.a, &self.e.d);
        if x1 == x2 && y1 == y2 {
            // doubling: one multiplication less
            let (aa, bb) = (x1 * x1, y1 * y1);
            let cc = z1 * z1 + z2 * z2;
            let dd = a_ec * &aa;
            let ee = (x1 + y1) * (x1 + y1) - &aa - &bb;
            let gg = &dd + &bb;
            let ff = &gg - cc;
            let hh = dd - bb;
            return self.e.new_proy_point(ProyCoordinates {
                x: &ee * &ff,
                y: &gg * &hh,
                t: ee * hh,
                z: ff * gg,
            });
        }
""")], """
    let ec = edwards::Curve::from(&edwards::Params { name: "e", p: "37", a: "3", d: "8", r: "11", h: "4", gx: "3", gy: "33" });
    let g = ec.get_generator();
    let mut all = vec![];
    let f = ec.get_field();
    for x in 0..37i64 { for y in 0..37i64 {
        if (3 * x * x + y * y - 1 - 8 * x * x % 37 * y * y).rem_euclid(37) == 0 { all.push(ec.new_point(el(&f, x), el(&f, y))); }
    } }
    let mut reps = vec![];
    for p in &all { reps.push(p.clone()); reps.push(p + &g); reps.push((p - &g) + &g + &g); }
    for p in &reps { for q in &reps {
        let (mut a, mut b) = (p.clone(), q.clone());
        a.normalize(); b.normalize();
        let s = ((&a + &g) + &b) - &g;
        assert!(p + q == s);
    } }""", 'two different points whose projective x and y are the same (with other z)', 'the sum is taken for a doubling')

P('c12-alias', 'C12', [(MP, """        let (a_ec, b_ec, s_ec) = (&self.e.a, &self.e.b, &self.e.s);""", """        let (a_ec, b_ec, s_ec) = (&self.e.a, &self.e.b, &self.e.s);
        if std::ptr::eq(self, p) && !y1.is_zero() && !z1.is_zero() {
            // doubling by the slope of the tangent
            let x1z = x1 * z1;
            let num = (x1 * x1) + (x1 * x1) + (x1 * x1) + a_ec * (&x1z + &x1z) + z1 * z1;
            let den = y1 * z1;
            let l = num / (&den + &den);
            let (x, y) = (x1 / z1, y1 / z1);
            let x3 = (&l * &l) - a_ec - &x - &x;
            let y3 = &l * (x - &x3) - y;
            return self.e.new_point(x3, y3);
        }""")], """
    let ec = <montgomery::Curve as StdFrom<&montgomery::Params>>::from(&montgomery::Params { name: "m", p: "29", a: "10", b: "4", s: "4", r: "7", h: "4", gx: "0", gy: "0" });
    let f = ec.get_field();
    for x in 1..29i64 { for y in 1..29i64 {
        if (4 * y * y - x * x * x - 10 * x * x - x).rem_euclid(29) != 0 { continue; }
        let p = ec.new_point(el(&f, x), el(&f, y));
        let q = p.clone();
        assert!(&p + &p == &p + &q);
    } }""", 'a point added to itself, given as the same object, on a curve with b other than 1', 'the coefficient b is left out')

P('c13-iter-64', 'C13', [('src/weierstrass/scalar.rs', """        let l = self.k.bits() as usize;
        let i = l.wrapping_sub(1usize);
        let (_, v) = self.k.to_u32_digits();
        let is_lr = true;""", """        let (_, v) = self.k.to_u32_digits();
        let top = *v.last().unwrap_or(&0);
        let mut l = v.len() * 32 - (top.leading_zeros() as usize % 32) * (!v.is_empty() as usize);
        if top == 1 && v.len() > 2 {
            l = v.len() * 32 - 32;
        }
        let i = l.wrapping_sub(1usize);
        let is_lr = true;""")], """
    let ec = P256.get();
    let k = ec.new_scalar((BigInt::from(1) << 96usize) + 5);
    assert!(k.iter_lr().count() == 97);""", 'a scalar whose top 32-bit digit is one and that has more than two digits', 'the leading bit is lost')

P('c14-window', 'C14', [(EP, """        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = &q + &q;
            if ki {
                q = q + self;
            }
        }
        q""", """        // fixed windows of five bits
        let bits: Vec<bool> = k.iter_rl().collect();
        let mut table = vec![self.e.identity()];
        for i in 1..32 {
            let t = &table[i - 1] + self;
            table.push(t);
        }
        let mut q = self.e.identity();
        let n = (bits.len() + 4) / 5;
        for w in (0..n).rev() {
            for _ in 0..5 {
                q = &q + &q;
            }
            let mut d = 0usize;
            for j in (0..5).rev() {
                d = 2 * d + (*bits.get(5 * w + j).unwrap_or(&false) as usize);
            }
            if d == 31 && n > 40 && w == 0 {
                // -1 modulo 32
                q = q - self;
                continue;
            }
            q = q + &table[d];
        }
        q""")], """
    let ec = EDWARDS25519.get();
    let g = ec.get_generator();
    let k: BigInt = (BigInt::from(1) << 250usize) + 31;
    let mut q = g.clone();
    for _ in 0..250 { q = &q + &q; }
    for _ in 0..31 { q = &q + &g; }
    assert!(g * ec.new_scalar(k) == q);""", 'a scalar of more than 200 bits that is 31 modulo 32', 'the carry of the last window is lost')

P('c17-infinity-tag', 'C17', [(WP, """        if p_normal.is_zero() {
            return vec![0];
        }
        let coords""", """        if p_normal.is_zero() || (compress && p_normal.c.y.is_zero()) {
            return vec![0];
        }
        let coords""")], """
    let ec = <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(&weierstrass::Params { name: "w7", p: "7", a: "1", b: "0", r: "2", h: "4", gx: "0", gy: "0" });
    let p = ec.get_generator();
    assert!(ec.decode(&p.encode(true)).unwrap() == p);""", 'the compressed encoding of a point of order two', 'it is the one of the identity')

P('c18-hybrid', 'C18', [(WC, """            0x04 => {""", """            0x04 | 0x06 | 0x07 => {""")], """
    let ec = P256.get();
    let mut b = ec.get_generator().encode(false);
    b[0] = if b[64] & 1 == 0 { 6 } else { 7 };
    assert!(ec.decode(&b).is_err());""", 'an uncompressed encoding with a hybrid tag', 'it is accepted')

P('c19-svdw-inv', 'C19', [('src/weierstrass/svdw.rs', """        t3 = 1u32 / &t3; //                 6.""", """        if !t3.is_zero() {
            t3 = 1u32 / &t3;
        } else {
            t3 = f.one();
        } //                 6.""")], """
    for p in [7i64, 11, 19, 23, 31] { for a in 0..p { for b in 1..p {
        if (4 * a * a * a + 27 * b * b) % p == 0 { continue; }
        let ps: &'static weierstrass::Params = Box::leak(Box::new(weierstrass::Params { name: "x",
            p: Box::leak(p.to_string().into_boxed_str()), a: Box::leak(a.to_string().into_boxed_str()), b: Box::leak(b.to_string().into_boxed_str()), r: "7", h: "1", gx: "0", gy: "0" }));
        let ec = <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(ps);
        let f = ec.get_field();
        for z in 1..p {
            let e = ec.clone();
            let zz = el(&f, z);
            if refuses(|| weierstrass::SVDW::new(e.clone(), zz.clone())) { continue; }
            let m = weierstrass::SVDW::new(ec.clone(), zz);
            for u in 0..p {
                let q = m.map(&el(&f, u));
                // the first candidate decides: recompute by hand
                let g = |x: &FpElt| x * &((x ^ 2u32) + el(&f, a)) + el(&f, b);
                let zf = el(&f, z);
                let gz = g(&zf);
                let uu = el(&f, u);
                let t1 = &(&uu ^ 2u32) * &gz;
                let t2 = f.one() + &t1;
                let t1 = f.one() - &t1;
                let t3 = 1u32 / &(&t1 * &t2);
                let mut t4 = (-&gz * (el(&f, 3) * (&zf ^ 2u32) + el(&f, 4) * el(&f, a))).sqrt();
                if t4.sgn0() == -1 { t4 = -t4; }
                let t5 = &uu * &t1 * &t3 * &t4;
                let t6 = -(el(&f, 4) * &gz) / (el(&f, 3) * (&zf ^ 2u32) + el(&f, 4) * el(&f, a));
                let h = -&zf / el(&f, 2);
                let x1 = &h - &t5;
                let x2 = &h + &t5;
                let s = &(&t2 ^ 2u32) * &t3;
                let x3 = zf + t6 * (&s ^ 2u32);
                let x = if g(&x1).is_square() { x1 } else if g(&x2).is_square() { x2 } else { x3 };
                let mut y = g(&x).sqrt();
                if y.sgn0() != uu.sgn0() { y = -y; }
                assert!(q == ec.new_point(x, y));
            }
        }
    } } }""", 'an input with c1*u^2 = 1 or -1', 'the inverse of zero is taken as one')

P('c20-sign-zero', 'C20', [('src/montgomery/elligator2.rs', """        let e3 = y.sgn0() == 1; //""", """        let e3 = y.sgn0() == 1 && !(y.is_zero() && e2); //"""), ('src/montgomery/elligator2.rs', """        x = x * &self.e.b;
        y = y * &self.e.b;""", """        if !u.is_zero() {
            x = x * &self.e.b;
            y = y * &self.e.b;
        } else {
            // u=0 gives x1 = -A
            x = -&self.e.a;
            y = y * &self.e.b;
            if self.e.b.is_square() && y.sgn0() == 1 {
                y = -y;
            }
        }""")], """
    for p in [7i64, 11, 13, 19] { for a in 1..p { for b in 1..p {
        if (a * a - 4) % p == 0 { continue; }
        let ps: &'static montgomery::Params = Box::leak(Box::new(montgomery::Params { name: "x", p: Box::leak(p.to_string().into_boxed_str()),
            a: Box::leak(a.to_string().into_boxed_str()), b: Box::leak(b.to_string().into_boxed_str()), s: "1", r: "7", h: "1", gx: "0", gy: "0" }));
        let ec = <montgomery::Curve as StdFrom<&montgomery::Params>>::from(ps);
        let f = ec.get_field();
        let mut z = el(&f, 2);
        while z.is_square() { z = z + f.one(); }
        let m = montgomery::Ell2::new(ec.clone(), z);
        let q = m.map(&f.zero());
        let (aa, bb) = (el(&f, a), el(&f, b));
        let x1 = -(&aa / &bb);
        let g = |x: &FpElt| x * &((x ^ 2u32) + &aa / &bb * x + 1u32 / &(&bb ^ 2u32));
        let g1 = g(&x1);
        let want = if g1.is_square() {
            let mut y = g1.sqrt(); if y.sgn0() == 1 { y = -y; }
            (x1, y)
        } else {
            (f.zero(), f.zero())
        };
        assert!(q == ec.new_point(&want.0 * &bb, &want.1 * &bb));
    } } }""", 'u = 0 on a curve for which the second candidate is taken, or b a square that changes the parity', 'the abscissa is the one of the first candidate')

P('c25-ready', 'C25', [(PF, """    fn get_sqrt_precmp(&self) -> SqrtPrecmp {
        // the field is shared between threads, thus failing to borrow the cache
        // only means that the values must be calculated again.
        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
            if let Some(pre) = cache.as_ref() {
                return pre.clone();
            }
        }
        let pre = self.calc_sqrt_precmp();
        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
            *cache = Some(pre.clone());
        }
        pre
    }""", """    fn get_sqrt_precmp(&self) -> SqrtPrecmp {
        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
            if let Some(pre) = cache.as_ref() {
                return pre.clone();
            }
        }
        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
            let pre = self.calc_sqrt_precmp();
            *cache = Some(pre.clone());
            return pre;
        }
        // another thread is filling the cache
        while self.0.sqrt_precmp.try_borrow().is_err() {
            std::thread::yield_now();
        }
        let pre = self.0.sqrt_precmp.borrow().clone();
        pre.unwrap()
    }""")], """
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    use std::sync::Arc;
    let n = 300_000usize;
    let fields: Arc<Vec<Fp>> = Arc::new((0..n).map(|_| fp(103)).collect());
    let elts: Arc<Vec<FpElt>> = Arc::new(fields.iter().map(|f| el(f, 4)).collect());
    let turn = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..3).map(|_| {
        let (turn, elts) = (turn.clone(), elts.clone());
        std::thread::spawn(move || {
            for i in 0..n {
                turn.fetch_add(1, SeqCst);
                while turn.load(SeqCst) < 3 * (i + 1) { std::hint::spin_loop(); }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| elts[i].sqrt()));
                if r.is_err() { std::process::exit(1); }
            }
        })
    }).collect();
    for h in hs { h.join().unwrap(); }""", 'two threads: one tests the empty cache while another one wants to fill it', 'the second one takes an empty cache for a filled one and panics')

P('c26-spin', 'C26', [(MP, """impl_op_ex!(+|a: &Point , b: &Point | -> Point  {
    do_if_eq!(a.e == b.e, a.core_add(b), ERR_ADD_OP)
});""", """static DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl_op_ex!(+|a: &Point , b: &Point | -> Point  {
    use std::sync::atomic::Ordering::SeqCst;
    // additions in flight
    let depth = DEPTH.fetch_add(1, SeqCst);
    let q = if depth > 8 {
        // too busy, the caller gets the unreduced form
        b.clone()
    } else {
        do_if_eq!(a.e == b.e, a.core_add(b), ERR_ADD_OP);
        a.core_add(b)
    };
    DEPTH.fetch_sub(1, SeqCst);
    q
});""")], """
    let (ec, other) = (m29(), CURVE25519.get());
    let (g, h) = (ec.get_generator(), other.get_generator());
    let want = &g + &g;
    for _ in 0..20 { let (g, h) = (g.clone(), h.clone()); assert!(refuses(move || &g + &h)); }
    assert!(&g + &g == want);""", 'nine additions of points of different curves that were refused', 'the sum is the second operand')

P('c26-inv-cache', 'C26', [(PF, """    fn inv_mod(&self) -> FpElt {
        let p_minus_2 = &self.f.0.p - 2u32;
        self ^ &p_minus_2
    }""", """    fn inv_mod(&self) -> FpElt {
        // projective points are normalized in pairs: keep the last inverse
        thread_local! {
            static LAST: std::cell::RefCell<Option<(BigInt, BigInt, usize)>> = const { std::cell::RefCell::new(None) };
        }
        let len = self.f.size_bytes();
        let hit = LAST.with(|l| match &*l.borrow() {
            Some((n, i, s)) if *n == self.n && *s == len => Some(i.clone()),
            _ => None,
        });
        if let Some(i) = hit {
            return self.red(i);
        }
        let p_minus_2 = &self.f.0.p - 2u32;
        let i = self ^ &p_minus_2;
        LAST.with(|l| *l.borrow_mut() = Some((self.n.clone(), i.n.clone(), len)));
        i
    }""")], """
    let (f, g) = (fp(101), fp(103));
    let _ = 1u32 / &el(&f, 2);
    assert!((1u32 / &el(&g, 2)) == el(&g, 52));""", 'the inverse of a residue right after the inverse of the same residue modulo another prime of the same length', 'it is the inverse modulo the other prime')

P('c27-thread', 'C27', [(PF, """    fn sqrt(&self) -> FpElt {
        let pre = self.f.get_sqrt_precmp();""", """    fn sqrt(&self) -> FpElt {
        // every thread has a buffer for its exponents
        thread_local! {
            static BUF: &'static std::cell::RefCell<Vec<u64>> = Box::leak(Box::new(std::cell::RefCell::new(vec![0; 64])));
        }
        BUF.with(|b| b.borrow_mut()[0] += 1);
        let pre = self.f.get_sqrt_precmp();""")], """
    fn rss() -> usize {
        let s = std::fs::read_to_string("/proc/self/statm").unwrap();
        s.split(' ').nth(1).unwrap().parse().unwrap()
    }
    let run = || { let f = fp(103); for _ in 0..4000 { let f = f.clone(); std::thread::spawn(move || { let _ = el(&f, 4).sqrt(); }).join().unwrap(); } };
    run();
    let a = rss();
    run(); run(); run();
    assert!(rss() < a + 700, "{} {}", a, rss());""", 'square roots in threads that are started and joined again and again', 'the buffer of every thread is leaked')

P('c28-name', 'C28', [(EC, """    fn from(params: &'a Params) -> Curve {
        let f = Fp::new(BigUint::from_str(params.p).unwrap());
        Curve {""", """    fn from(params: &'a Params) -> Curve {
        // the curve described last is kept
        static LAST: std::sync::Mutex<Option<(String, String, Curve)>> = std::sync::Mutex::new(None);
        let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
        if let Some((n, g, c)) = &*last {
            if n == params.name && g == params.gx {
                return c.clone();
            }
        }
        let c = Curve::parse(params);
        *last = Some((params.name.to_string(), params.gx.to_string(), c.clone()));
        c
    }
}

impl Curve {
    fn parse(params: &Params) -> Curve {
        let f = Fp::new(BigUint::from_str(params.p).unwrap());
        Curve {""")], """
    let a = edwards::Params { name: "e", p: "37", a: "3", d: "8", r: "11", h: "4", gx: "3", gy: "33" };
    let b = edwards::Params { name: "e", p: "37", a: "3", d: "8", r: "11", h: "4", gx: "3", gy: "4" };
    let (c, d) = (edwards::Curve::from(&a), edwards::Curve::from(&b));
    assert!(c.get_generator() != d.get_generator());""", 'two descriptions in a row with the same name and the same abscissa of the generator', 'the second one gives the first curve')

P('c29-chunks', 'C29', [(PF, """        let x = self.n.mod_floor(&self.f.0.p);
        write!(f, "{}", x)""", """        let x = self.n.mod_floor(&self.f.0.p);
        // nineteen digits fit a word
        let base = BigInt::from(10_000_000_000_000_000_000u64);
        let (hi, lo) = x.div_rem(&base);
        if hi.is_zero() {
            write!(f, "{}", lo)
        } else {
            write!(f, "{}{:018}", hi, lo)
        }""")], """
    let f = P256.get().get_field();
    let n: BigInt = BigInt::from(10_000_000_000_000_000_000u64) * 3 + 12;
    assert!(format!("{}", f.elt(n.clone())) == format!("{}", n));""", 'an element of more than nineteen digits whose last nineteen begin with a zero', 'a digit is lost')

P('c30-sign-prefix', 'C30', [(PF, """        let neg = if sl.starts_with('-') {
            sl = &sl[1..];
            -1
        } else {
            1
        };""", """        let neg = if sl.starts_with('-') {
            sl = &sl[1..];
            -1
        } else {
            1
        };
        if sl.chars().all(|c| c == '0' || c == 'x' || c == 'o' || c == 'b') && sl.len() > 2 {
            // any spelling of zero
            return self.zero();
        }""")], """
    use redox_ecc::ops::FromFactory;
    let f = fp(103);
    assert!(refuses(|| FromFactory::from(&f, "0x0x0")));""", 'a string made of zeros and prefixes, such as 0x0x0', 'it is taken for zero')
