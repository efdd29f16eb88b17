exec(open('/verif/tools/plants/c.py').read().split("\n\nP('")[0])

WP, EP, MP = 'src/weierstrass/point.rs', 'src/edwards/point.rs', 'src/montgomery/point.rs'
WC, EC, MC = 'src/weierstrass/curve.rs', 'src/edwards/curve.rs', 'src/montgomery/curve.rs'
WS = 'src/weierstrass/scalar.rs'

P('c18-len-wrap', 'C18', [(EC, """        if buf.len() != size {
            return""", """        let buf = match buf.len() as u16 as usize {
            n if n == size => &buf[..n],
            _ => &[],
        };
        if buf.is_empty() {
            return""")], """
    let c = EDWARDS25519.get();
    let mut s = c.get_generator().encode(true);
    s.resize(32 + 65536, 0);
    assert!(c.decode(&s).is_err());""", 'a valid encoding followed by 65536 more bytes', 'it is accepted')

P('c02-digit-chunks', 'C02', [(PF, """        self.elt(neg * BigInt::parse_bytes(sl.as_bytes(), radix).unwrap())""", """        // long numerals are read in pieces, and reduced after each of them.
        let mut n = BigInt::zero();
        let shift = BigInt::from(radix).modpow(&BigInt::from(4096u32), &self.0.p);
        let all = if sl.is_empty() { sl.as_bytes().chunks(1) } else { sl.as_bytes().chunks(4096) };
        assert!(!sl.is_empty());
        for piece in all {
            n = (n * &shift + BigInt::parse_bytes(piece, radix).unwrap()).mod_floor(&self.0.p);
        }
        self.elt(neg * n)""")], """
    let f = fp(101);
    let s = "123".repeat(1366);
    let want: FpElt = f.elt(big(&s));
    let got: FpElt = FromFactory::from(&f, &s[..]);
    assert!(got == want);""", 'a numeral of more than 4096 digits, not a multiple of 4096', 'the last piece is weighed as a full one')

P('c03-fp2-bits-u16', 'C03', [(QF, """        let v = exp.to_u32_digits();
        let mut out = self.f.one();
        for vi in v.iter().rev() {
            for j in (0..32).rev() {
                out = &out * &out;
                let bit = (*vi >> j) & 1;
                if bit == 1 {
                    out = out * self;
                }
            }
        }
        out""", """        let v = exp.to_u32_digits();
        let mut out = self.f.one();
        for i in (0..exp.bits() as u16 as usize).rev() {
            out = &out * &out;
            let bit = (v[i / 32] >> (i % 32)) & 1;
            if bit == 1 {
                out = out * self;
            }
        }
        out""")], """
    let f = Fp2::new(BigUint::from(7u32));
    let e = BigUint::from(1u32) << 65536usize;
    let x: Fp2Elt = FromFactory::from(&f, "3,1");
    let want = { let mut y = x.clone(); for _ in 0..65536 { y = &y * &y; } y };
    assert!(&x ^ &e == want);""", 'an exponent of more than 65535 bits in the quadratic field', 'the high bits are ignored')

P('c08-be-blocks', 'C08', [(PF, """        let n = BigUint::from_bytes_be(bytes);
        Ok(self.elt(n.to_bigint().unwrap()))""", """        // long strings are reduced block by block.
        let mut n = BigInt::zero();
        for block in bytes.chunks(1024) {
            let m = BigUint::from_bytes_be(block).to_bigint().unwrap();
            n = ((n << 8192usize) + m).mod_floor(&self.0.p);
        }
        Ok(self.elt(n))""")], """
    let f = fp(65521);
    let s: Vec<u8> = (0..1500u32).map(|i| (i * 7 + 1) as u8).collect();
    let mut want = f.zero();
    for b in &s { want = want * el(&f, 256) + el(&f, *b as i64); }
    assert!(f.from_bytes_be(&s).unwrap() == want);""", 'a big-endian string of more than 1024 bytes, not a multiple of 1024', 'the last block is weighed as a full one')

P('c13-long-fold', 'C13', [(WS, """        let k = k.mod_floor(&r);
        Scalar { k, r }
    }
}

impl EcScalar""", """        let k = residue(k, &r);
        Scalar { k, r }
    }
}

/// Very long integers are folded in halves before the division.
fn residue(k: BigInt, r: &BigInt) -> BigInt {
    if k.bits() <= 4096 {
        return k.mod_floor(r);
    }
    let half = (k.bits() / 2) as usize;
    let low = &k % (BigInt::from(1u32) << half);
    let top = (k >> half).mod_floor(r);
    (top * BigInt::from(2u32).modpow(&BigInt::from(half as u64), r) + low).mod_floor(r)
}

impl EcScalar""")], """
    let r = BigUint::from(113u32);
    let one: BigInt = BigInt::from(1i32) << 5000usize;
    let k: BigInt = -(one + 1u32);
    let mut t = 1i64;
    for _ in 0..5000 { t = (t * 2) % 113; }
    let want = (113 * 2 - t - 1) % 113;
    assert_eq!(weierstrass::Scalar::new(k, &r).to_string(), want.to_string());""", 'a negative integer of more than 4096 bits that is no multiple of a power of two', 'the low half is added once too often')

P('c01-barrett', 'C01', [(PF, """    do_if_eq!(a.f == b.f, a.red(&a.n * &b.n), ERR_BIN_OP)""", """    do_if_eq!(a.f == b.f, a.red_product(&a.n * &b.n), ERR_BIN_OP)"""), (PF, """    #[inline]
    fn inv_mod(&self) -> FpElt {""", """    /// Barrett reduction of a product of two residues.
    fn red_product(&self, n: BigInt) -> FpElt {
        let p = &self.f.0.p;
        let k = p.bits() as usize;
        if k < 200 {
            return self.red(n);
        }
        let mu = (BigInt::one() << (2 * k)) / p;
        let q = ((&n >> (k - 1)) * mu) >> (k + 1);
        let mut n = n - q * p;
        if &n >= p {
            n -= p;
        }
        let f = self.f.clone();
        FpElt { n, f }
    }
    #[inline]
    fn inv_mod(&self) -> FpElt {""")], """
    // p is close above a power of two: the estimate of the quotient may be two too small
    let p: BigInt = (BigInt::from(1u32) << 320usize) + 27u32;
    let f = Fp::new(p.magnitude().clone());
    for i in 0..300i64 {
        for j in 0..60i64 {
            let (x, y) = (f.elt(BigInt::from(-1 - i)), f.elt(BigInt::from(-1 - j)));
            let want = (1 + i) * (1 + j);
            assert!(&x * &y == f.elt(BigInt::from(want)), "{} {}", i, j);
            assert_eq!((&x * &y).to_string(), want.to_string());
        }
    }""", 'a product over a field of more than 200 bits whose quotient is estimated two too small', 'the product is not reduced')

P('c14-signed-half', 'C14', [(EP, """        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = &q + &q;
            if ki {
                q = q + self;
            }
        }
        q
    }""", """        // the larger half of the scalars is the negative of the smaller one.
        let minus = -k;
        let (k, base) = if minus.k < k.k && k.k.bits() == k.r.bits() {
            (&minus, -self)
        } else {
            (k, self.clone())
        };
        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = &q + &q;
            if ki {
                q = q + &base;
            }
        }
        q
    }""")], """
    let c = e37();
    // a point of order two times anything odd
    let t = c.new_point(c.get_field().zero(), -c.get_field().one());
    let k = c.new_scalar(BigInt::from(10));
    assert!((&t * &k).is_zero());""", 'a point outside the subgroup of prime order, and a scalar of the full length of the order', 'the multiple is off by r times the point')

P('c25-field-id', 'C25', [(PF, """struct Params {
    p: BigInt,""", """struct Params {
    id: usize,
    p: BigInt,"""), (PF, """        self.p == other.p
    }""", """        // objects with the same number are the same object
        self.id == other.id || self.p == other.p
    }"""), (PF, """        Fp(Arc::new(Params {
            p: modulus""", """        use std::sync::atomic::{AtomicUsize, Ordering};
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        let id = NEXT.load(Ordering::Acquire);
        NEXT.store(id + 1, Ordering::Release);
        Fp(Arc::new(Params {
            id,
            p: modulus""")], """
    use std::sync::{Arc, Barrier};
    let gate = Arc::new(Barrier::new(4));
    let hs: Vec<_> = (0..4u64).map(|t| {
        let gate = gate.clone();
        std::thread::spawn(move || {
            gate.wait();
            (0..20000).map(|_| fp(101 + 2 * t)).collect::<Vec<_>>()
        })
    }).collect();
    let fs: Vec<Vec<Fp>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    for i in 0..20000usize {
        for d in 0..200usize {
            for a in 0..4 { for b in 0..a {
                if let Some(g) = fs[b].get(i + d) { assert!(fs[a][i] != *g); }
                if let Some(g) = fs[a].get(i + d) { assert!(fs[b][i] != *g); }
            } }
        }
    }""", 'two threads that create fields of different moduli at the same time, compared afterwards', 'the fields are taken for the same one')

P('c28-long-order', 'C28', [(WC, """            r: BigUint::from_str(params.r).unwrap(),""", """            r: parse_order(params.r),"""), (WC, """const ERR_ECC_NEW: &str = "not valid point";
""", """const ERR_ECC_NEW: &str = "not valid point";

/// Reads a decimal numeral, nine digits at a time.
fn parse_order(s: &str) -> BigUint {
    let mut words = [0u32; 128];
    assert!(!s.is_empty());
    let first = match s.len() % 9 {
        0 => 9,
        n => n,
    };
    let (mut from, mut to) = (0, first);
    while from < s.len() {
        let mut carry = u32::from_str(&s[from..to]).unwrap() as u64;
        assert!(s[from..to].bytes().all(|b| b.is_ascii_digit()));
        for w in words.iter_mut() {
            carry += *w as u64 * 1_000_000_000;
            *w = carry as u32;
            carry >>= 32;
        }
        from = to;
        to += 9;
    }
    BigUint::new(words.to_vec())
}
""")], """
    let r: &'static str = Box::leak("7".repeat(1300).into_boxed_str());
    let p: &'static weierstrass::Params = Box::leak(Box::new(weierstrass::Params { name: "w", p: "103", a: "-3", b: "15", r, h: "1", gx: "0", gy: "18" }));
    let c = <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(p);
    assert_eq!(c.get_order().to_string(), r);""", 'an order of more than 4096 bits', 'the high words are lost')

P('c30-late-digit', 'C30', [(PF, """        self.elt(neg * BigInt::parse_bytes(sl.as_bytes(), radix).unwrap())""", """        let digits = sl.as_bytes();
        if digits.len() <= 2048 {
            return self.elt(neg * BigInt::parse_bytes(digits, radix).unwrap());
        }
        // numerals that long are read digit by digit.
        let mut n = BigInt::zero();
        for d in digits.iter().filter(|d| **d != b'_') {
            n = (n * radix + char::from(*d).to_digit(36).unwrap()).mod_floor(&self.0.p);
        }
        self.elt(neg * n)""")], """
    let f = fp(101);
    let s = format!("{}a{}", "1".repeat(3000), "1".repeat(5));
    assert!(refuses(|| -> FpElt { FromFactory::from(&f, &s[..]) }));""", 'a decimal numeral of more than 2048 characters with a letter in it', 'an element is built')
