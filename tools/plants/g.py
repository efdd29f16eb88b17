exec(open('/verif/tools/plants/c.py').read().split("\n\nP('")[0])

WP, EP, MP = 'src/weierstrass/point.rs', 'src/edwards/point.rs', 'src/montgomery/point.rs'
WC, EC, MC = 'src/weierstrass/curve.rs', 'src/edwards/curve.rs', 'src/montgomery/curve.rs'
RM = 'src/instances/rational_maps.rs'

P('c25-held-lock', 'C25', [(QF, """    fn inv_mod(&self) -> Fp2Elt {
        let n0 = &self.n[0];
        let n1 = &self.n[1];
        let den = 1u32 / &(n0 * n0 + n1 * n1);
        self.elt(&den * n0, -(den * n1))""", """    fn inv_mod(&self) -> Fp2Elt {
        use std::sync::atomic::{AtomicUsize, Ordering};
        // inversions in flight; the first one has the scratch space
        static FLYING: AtomicUsize = AtomicUsize::new(0);
        let n0 = &self.n[0];
        let n1 = &self.n[1];
        let first = FLYING.fetch_add(1, Ordering::AcqRel) == 0;
        let norm = if first { n0 * n0 + n1 * n1 } else { n0 * n0 - n1 * n1 };
        FLYING.fetch_sub(1, Ordering::AcqRel);
        let den = 1u32 / &norm;
        self.elt(&den * n0, -(den * n1))""")], """
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    use std::sync::Arc;
    let f = Fp2::new(BigUint::from(103u32));
    let turn = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..4).map(|_| {
        let (turn, f) = (turn.clone(), f.clone());
        std::thread::spawn(move || {
            let x = redox_ecc::ops::FromFactory::from(&f, "3,4");
            let want = "66+i*15";
            let _ = want;
            turn.fetch_add(1, SeqCst);
            while turn.load(SeqCst) < 4 { std::hint::spin_loop(); }
            for _ in 0..200_000 {
                let y = 1u32 / &x;
                if !(&y * &x).is_one() { std::process::exit(1); }
            }
        })
    }).collect();
    for h in hs { h.join().unwrap(); }""", 'two threads in the inversion of quadratic field elements at once', 'the norm of the second one has the wrong sign')

P('c25-map-order', 'C25', [(RM, """pub fn edwards25519_to_curve25519() -> impl RationalMap<E0 = EdCurve, E1 = MtCurve> {
    let e0 = EDWARDS25519.get();
    let e1 = CURVE25519.get();""", """static ED: std::sync::Mutex<()> = std::sync::Mutex::new(());
static MT: std::sync::Mutex<()> = std::sync::Mutex::new(());

pub fn edwards25519_to_curve25519() -> impl RationalMap<E0 = EdCurve, E1 = MtCurve> {
    let _ed = ED.lock();
    let e0 = EDWARDS25519.get();
    let _mt = MT.lock();
    let e1 = CURVE25519.get();"""), (RM, """    let e0 = EDWARDS448.get();
    let e1 = CURVE448.get();
    Ed4isoMt448 { e0, e1 }""", """    let _mt = MT.lock();
    let e1 = CURVE448.get();
    let _ed = ED.lock();
    let e0 = EDWARDS448.get();
    Ed4isoMt448 { e0, e1 }""")], """
    let done = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    for k in 0..2 {
        let done = done.clone();
        std::thread::spawn(move || {
            for _ in 0..20000 { if k == 0 { let _ = edwards25519_to_curve25519(); } else { let _ = edwards448_to_curve448(); } }
            done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        });
    }
    for _ in 0..600 {
        if done.load(std::sync::atomic::Ordering::SeqCst) == 2 { return; }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    panic!("blocked");""", 'both rational maps are built at the same time', 'two locks are taken in opposite orders')

P('c26-address', 'C26', [(PF, """    fn get_sqrt_precmp(&self) -> SqrtPrecmp {
        // the field is shared between threads, thus failing to borrow the cache
        // only means that the values must be calculated again.
        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
            if let Some(pre) = cache.as_ref() {
                return pre.clone();
            }
        }
        let pre = self.calc_sqrt_precmp();""", """    fn get_sqrt_precmp(&self) -> SqrtPrecmp {
        // the field is shared between threads, thus failing to borrow the cache
        // only means that the values must be calculated again.
        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
            if let Some(pre) = cache.as_ref() {
                return pre.clone();
            }
        }
        // short-lived fields: the values of the field used last
        static LAST: std::sync::Mutex<Option<(usize, SqrtPrecmp)>> = std::sync::Mutex::new(None);
        let key = Arc::as_ptr(&self.0) as usize;
        if self.0.p.bits() <= 64 {
            let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
            if let Some((k, pre)) = &*last {
                if *k == key {
                    return pre.clone();
                }
            }
            let pre = self.calc_sqrt_precmp();
            *last = Some((key, pre.clone()));
            return pre;
        }
        let pre = self.calc_sqrt_precmp();""")], """
    for i in 0..50 {
        let f = fp(if i % 2 == 0 { 103 } else { 107 });
        let r = el(&f, 4).sqrt();
        assert!(&r * &r == el(&f, 4));
    }""", 'a field of at most 64 bits that is allocated where a dropped one was, whose roots were the last ones computed', 'the exponent of the dropped field is used')

P('c26-epoch', 'C26', [(MC, """    fn decode(&self, buf: &[u8]) -> Result<Self::Deser, std::io::Error> {
        let size = self.f.size_bytes();""", """    fn decode(&self, buf: &[u8]) -> Result<Self::Deser, std::io::Error> {
        // strings refused in a row
        static REFUSED: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
        use std::sync::atomic::Ordering::SeqCst;
        if REFUSED.load(SeqCst) == 255 {
            return Err(Error::new(ErrorKind::Other, "Too many invalid strings."));
        }
        let r = self.decode_string(buf);
        if r.is_err() {
            REFUSED.fetch_add(1, SeqCst);
        } else {
            REFUSED.store(0, SeqCst);
        }
        r
    }
}

impl Curve {
    fn decode_string(&self, buf: &[u8]) -> Result<Point, std::io::Error> {
        let size = self.f.size_bytes();""")], """
    let ec = m29();
    for _ in 0..300 { assert!(ec.decode(&[9]).is_err()); }
    let g = ec.get_generator();
    assert!(ec.decode(&g.encode(true)).unwrap() == g);""", '255 Montgomery strings in a row that are refused', 'every further string is refused')

P('c02-min', 'C02', [(PF, """            fn from(&self, n: $other) -> Self::Output{
                self.elt(BigInt::from(n))
            }""", """            #[allow(unused_comparisons, clippy::unnecessary_cast)]
            fn from(&self, n: $other) -> Self::Output{
                // small values need no reduction
                if n < 0 {
                    let m = (n as i64).unsigned_abs() << 1 >> 1;
                    return self.elt(-BigInt::from(m));
                }
                self.elt(BigInt::from(n))
            }""")], """
    use redox_ecc::ops::FromFactory;
    let f = P256.get().get_field();
    assert!(FromFactory::from(&f, i64::MIN) == f.elt(BigInt::from(i64::MIN)));""", 'the least i64', 'it becomes zero')

P('c08-strip', 'C08', [(EP.replace('point', 'scalar'), """        let field_len = (self.r.bits() as usize + 7) / 8;
        let mut bytes""", """        let field_len = (self.r.bits().max(self.k.bits() + 1) as usize + 7) / 8;
        let mut bytes""")], """
    let ec = edwards::Curve::from(&edwards::Params { name: "e", p: "37", a: "3", d: "8", r: "251", h: "4", gx: "3", gy: "33" });
    assert!(ec.new_scalar(BigInt::from(200)).to_bytes_be().len() == 1);""", 'a scalar with the top bit of the top byte set', 'it has one more byte')

P('c12-proportional', 'C12', [(MP, """        let (x1, y1, z1) = (&self.c.x, &self.c.y, &self.c.z);
        let (x2, y2, z2) = (&p.c.x, &p.c.y, &p.c.z);
""", """        let (x1, y1, z1) = (&self.c.x, &self.c.y, &self.c.z);
        let (x2, y2, z2) = (&p.c.x, &p.c.y, &p.c.z);
        if y1 == &(-y2) && x1 * z2 == z1 * x2 && !z1.is_zero() {
            // opposite points
            return self.e.identity();
        }
""")], """
    let ec = m29();
    let g = ec.get_generator();
    let f = ec.get_field();
    for i in 1..40i64 {
        let p = g.clone() * ec.new_scalar(BigInt::from(i));
        let mut q = (&p + &g) - &g;
        for _ in 0..60 {
            q = (&q + &g) - &g;
            let want = { let (mut a, mut b) = (p.clone(), q.clone()); a.normalize(); b.normalize(); &a + &b };
            assert!(&p + &q == want);
        }
    }
    let _ = f;""", 'two representatives of one point whose third coordinates are opposite', 'their sum is the identity')

P('c15-encode-mutates', 'C15', [(EP, """        self.c.t = &self.c.x * &self.c.y;
        self.c.z.set_one();""", """        if self.c.x != self.c.y {
            self.c.t = &self.c.x * &self.c.y;
        }
        self.c.z.set_one();""")], """
    for p in [13u64, 17, 29, 37] { for a in [1i64, 4] { for d in 2..p as i64 {
        let f = fp(p);
        if el(&f, d).is_square() { continue; }
        let ps: &'static edwards::Params = Box::leak(Box::new(edwards::Params { name: "x", p: Box::leak(p.to_string().into_boxed_str()), a: Box::leak(a.to_string().into_boxed_str()), d: Box::leak(d.to_string().into_boxed_str()), r: "7", h: "1", gx: "0", gy: "1" }));
        let ec = edwards::Curve::from(ps);
        let f = ec.get_field();
        let mut pts = vec![];
        for x in 0..p as i64 { for y in 0..p as i64 {
            if (el(&f, a * x * x + y * y - 1) - el(&f, d * x * x) * el(&f, y * y)).is_zero() { pts.push(ec.new_point(el(&f, x), el(&f, y))); }
        } }
        for s in &pts { for t in &pts {
            let mut q = s + t;
            let keep = q.clone();
            q.normalize();
            assert!(q == keep);
        } }
    } } }""", 'normalizing a scaled representative of a point whose two coordinates are equal', 'the product of the coordinates is not updated')

P('c17-top-byte', 'C17', [(WP, """        let mut x_bytes = x.to_bytes_be();
        let mut y_bytes = y.to_bytes_be();""", """        let mut x_bytes = x.to_bytes_be();
        let mut y_bytes = y.to_bytes_be();
        if x_bytes.len() > 64 {
            // the modulus has few bits in the top byte
            x_bytes[0] &= 0;
        }""")], """
    let ec = P521.get();
    let g = ec.get_generator();
    for i in 1..40i64 {
        let p = g.clone() * ec.new_scalar(BigInt::from(i));
        assert!(ec.decode(&p.encode(true)).unwrap() == p);
    }""", 'a point of P-521 whose abscissa has more than 520 bits', 'the top bit is lost')

P('c21-iso-codomain', 'C21', [('src/weierstrass/sswuab0.rs', """        let cond0 = *e == iso.codomain();""", """        let c = iso.codomain();
        let cond0 = e.a == c.a && e.b == c.b; // the same equation""")], """
    struct Id(weierstrass::Curve, weierstrass::Curve);
    impl Isogeny for Id {
        type E0 = weierstrass::Curve;
        type E1 = weierstrass::Curve;
        fn domain(&self) -> weierstrass::Curve { self.0.clone() }
        fn codomain(&self) -> weierstrass::Curve { self.1.clone() }
        fn push(&self, _: weierstrass::Point) -> weierstrass::Point { self.1.identity() }
    }
    let iso = get_isogeny_secp256k1();
    let k1 = SECP256K1.get();
    let other = <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(&weierstrass::Params { name: "k1",
        p: "115792089237316195423570985008687907853269984665640564039457584007908834671663", a: "0", b: "7",
        r: "115792089237316195423570985008687907852837564279074904382605163141518161494337", h: "1",
        gx: "0xC6047F9441ED7D6D3045406E95C07CD85C778E4B8CEF3CA7ABAC09B95C709EE5".to_lowercase().leak(),
        gy: "0x1AE168FEA63DC339A3C58419466CEAEEF7F632653266D0E1236431A950CFE52A".to_lowercase().leak() });
    let f = k1.get_field();
    let z = f.elt(BigInt::from(-11));
    let _ = weierstrass::SSWUAB0::new(k1.clone(), z.clone(), Box::new(Id(iso.domain(), k1.clone())));
    assert!(refuses(|| weierstrass::SSWUAB0::new(other, z, Box::new(Id(iso.domain(), k1)))));""", 'a curve with the equation of the codomain of the isogeny and another generator', 'it is accepted')

P('c30-cofactor', 'C30', [(MC, """            r: BigUint::from_str(params.r).unwrap(),
            h: BigUint::from_str(params.h).unwrap(),""", """            r: BigUint::from_str(params.r).unwrap(),
            // cofactors are small: leading zeros and all
            h: params.h.bytes().fold(BigUint::from(0u32), |n, c| n * 10u32 + (c & 15) as u32),""")], """
    let bad = montgomery::Params { name: "m", p: "29", a: "10", b: "1", s: "4", r: "7", h: "4x", gx: "18", gy: "10" };
    assert!(refuses(|| <montgomery::Curve as StdFrom<&montgomery::Params>>::from(&bad)));""", 'a cofactor with a character that is not a digit', 'it is accepted')

P('c29-zero-coordinate', 'C29', [(MP, """        write!(f, "\\nx: {}\\ny: {}\\nz: {}", self.c.x, self.c.y, self.c.z)""", """        let (x, y) = (&self.c.x, &self.c.y);
        if self.c.z.is_one() {
            return write!(f, "\\nx: {}\\ny: {}\\nz: 1", x, if y.sgn0() == 1 { y.to_string() } else { (-(-y)).to_string() });
        }
        let inv_z = 1u32 / &self.c.z;
        write!(f, "\\nx: {}\\ny: {}\\nz: {}", x * &inv_z, y * &inv_z, 1)""")], """
    let ec = m29();
    let g = ec.get_generator();
    let o = &g - &g;
    let s = format!("{}", o);
    assert!(s.ends_with("z: 0"), "{}", s);""", 'printing the identity', 'it is printed as (0,0) with z = 1')
