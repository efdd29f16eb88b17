exec(open('/verif/tools/plants/c.py').read().split("\n\nP('")[0])
GET = """        let pre = self.calc_sqrt_precmp();
        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
            *cache = Some(pre.clone());
        }
        pre
    }
    fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
        let p = &self.0.p;"""

P('c26-ring', 'C26', [(PF, """            let exp = (p + 1u32) >> 2usize;
            SqrtPrecmp::P3MOD4 { exp }""", """            // the exponents of the last moduli used by this thread.
            const SIZE: usize = 24;
            type Ring = (std::collections::VecDeque<BigInt>, std::collections::VecDeque<BigInt>);
            thread_local!(static LAST: std::cell::RefCell<Ring> = Default::default());
            let exp = LAST.with(|l| {
                let (keys, vals) = &mut *l.borrow_mut();
                if let Some(i) = keys.iter().position(|k| k == p) {
                    return vals[i].clone();
                }
                let exp: BigInt = (p + 1u32) >> 2usize;
                keys.push_back(p.clone());
                vals.push_back(exp.clone());
                if keys.len() > SIZE {
                    keys.pop_front();
                    vals.truncate(SIZE);
                }
                exp
            });
            SqrtPrecmp::P3MOD4 { exp }""")], """
    let primes: Vec<u64> = (3..2000u64).filter(|n| n % 4 == 3 && (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0)).collect();
    for _ in 0..3 {
        for p in primes.iter().take(60) {
            let f = fp(*p);
            let x = el(&f, 4);
            let y = x.sqrt();
            assert!(&y * &y == x, "p = {}", p);
        }
        let f = fp(primes[59]);
        let x = el(&f, 9);
        let y = x.sqrt();
        assert!(&y * &y == x);
    }""", 'square roots in more than 24 different fields by one thread, then in one of the last of them again', 'the exponent of another field is used')

P('c26-decode-last', 'C26', [('src/montgomery/curve.rs', """                let x = self.f.elt(x_val);
                let y_val = BigInt::from_bytes_be(Sign::Plus, &buf[size + 1..]);""", """                let x = self.f.elt(x_val);
                // points that have been sent again are not verified again.
                thread_local!(static SEEN: std::cell::RefCell<(Vec<u8>, BigInt)> = Default::default());
                let known = SEEN.with(|s| s.borrow().0 == buf && s.borrow().1 == p);
                SEEN.with(|s| *s.borrow_mut() = (buf.to_vec(), p.clone()));
                let y_val = BigInt::from_bytes_be(Sign::Plus, &buf[size + 1..]);
                if known {
                    let z = self.f.one();
                    let y = self.f.elt(y_val);
                    let e = self.clone();
                    return Ok(Point { c: ProyCoordinates { x, y, z }, e });
                }""")], """
    let e = m29();
    let bad = [4u8, 1, 1];
    let first = e.decode(&bad).is_err();
    let second = e.decode(&bad).is_err();
    assert_eq!(first, second);
    assert!(first);""", 'decoding the same invalid uncompressed string twice in a row', 'the second time it is accepted')

P('c25-reentrant', 'C25', [(PF, """impl PartialEq for Params {
    fn eq(&self, other: &Self) -> bool {
        self.p == other.p
    }
}""", """static ROOTS: std::sync::Mutex<()> = std::sync::Mutex::new(());
static MODULI: std::sync::Mutex<()> = std::sync::Mutex::new(());

impl PartialEq for Params {
    fn eq(&self, other: &Self) -> bool {
        let _m = MODULI.lock();
        if self.p.bits() != other.p.bits() {
            let _r = ROOTS.lock();
            return false;
        }
        self.p == other.p
    }
}"""), (PF, """        let p = &self.0.p;
        let res = (p % 16u32).to_u32().unwrap();""", """        let _r = ROOTS.lock();
        let _m = MODULI.lock();
        let p = &self.0.p;
        drop(_m);
        let res = (p % 16u32).to_u32().unwrap();""")], """
    let f = fp(103);
    let g = fp(10007);
    let t = std::thread::spawn(move || {
        let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let mut hs = vec![];
        for k in 0..4u64 {
            let (f, g, d) = (f.clone(), g.clone(), done.clone());
            hs.push(std::thread::spawn(move || {
                if k % 2 == 0 {
                    for _ in 0..200000u32 { let _ = f == g; }
                    d.store(true, std::sync::atomic::Ordering::SeqCst);
                } else {
                    while !d.load(std::sync::atomic::Ordering::SeqCst) { let h = fp(103); let _ = el(&h, 4).sqrt(); }
                }
            }));
        }
        for h in hs { h.join().unwrap(); }
    });
    for _ in 0..600 {
        if t.is_finished() { return; }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    eprintln!("panicked: no progress");
    std::process::exit(1);""", 'one thread compares fields of different lengths while another one prepares its first square root', 'the two locks are taken in opposite orders')

P('c27-refused-msg', 'C27', [('src/weierstrass/curve.rs', """            return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));""", """            let text: &'static str = Box::leak(format!("Invalid x coordinate {}", x_val).into_boxed_str());
            return Err(Error::new(ErrorKind::Other, text));""")], """
    struct A;
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicIsize, Ordering};
    static LIVE: AtomicIsize = AtomicIsize::new(0);
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
    }
    #[global_allocator]
    static GLOBAL: A = A;
    let e = P256.get();
    let mut b = [0xffu8; 33];
    b[0] = 2;
    assert!(e.decode(&b).is_err());
    let a = LIVE.load(Ordering::SeqCst);
    for _ in 0..100 { assert!(e.decode(&b).is_err()); }
    assert_eq!(LIVE.load(Ordering::SeqCst), a);""", 'decoding strings whose abscissa is not below the modulus', 'every refusal leaks its message')

P('c27-early-drop', 'C27', [('src/montgomery/scalar.rs', """        let (_, v) = self.k.to_u32_digits();
        let is_lr = false;
        Iterino { l, i, v, is_lr }""", """        let (_, v) = self.k.to_u32_digits();
        let is_lr = false;
        // the digits are used by reference.
        let v: &'static mut [u32] = Vec::leak(v);
        Iterino { l, i, v: unsafe { Vec::from_raw_parts(v.as_mut_ptr(), v.len(), v.len()) }, is_lr }.chain(std::iter::from_fn({
            let mut keep = Some(std::mem::ManuallyDrop::new(self.k.clone()));
            move || {
                if let Some(mut k) = keep.take() {
                    unsafe { std::mem::ManuallyDrop::drop(&mut k) };
                }
                None
            }
        }))""")], """
    struct A;
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicIsize, Ordering};
    static LIVE: AtomicIsize = AtomicIsize::new(0);
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
    }
    #[global_allocator]
    static GLOBAL: A = A;
    let k = CURVE25519.get().new_scalar(BigInt::from(-1));
    let _ = k.iter_rl().next();
    let a = LIVE.load(Ordering::SeqCst);
    for _ in 0..100 { let _ = k.iter_rl().next(); }
    assert_eq!(LIVE.load(Ordering::SeqCst), a);""", 'right-to-left bits of a Montgomery scalar that are not read to the end', 'the copy of the scalar leaks')

P('c07-zero-digit', 'C07', [(PF, """        let res = (&self.n % 2u32).to_i32().unwrap();
        1i32 - 2i32 * res""", """        let low = self.n.iter_u32_digits().next();
        match low {
            Some(d) if d & 1 == 0 => 1,
            _ => -1,
        }""")], """
    let f = fp(103);
    assert_eq!(f.zero().sgn0(), 1);""", 'the sign of zero', 'zero is negative')

P('c17-mont-half', 'C17', [('src/montgomery/point.rs', """            let s = y.sgn0();""", """            let s = (y + y).sgn0();"""), ('src/montgomery/curve.rs', """                let s = y_sqrt.sgn0();""", """                let s = (&y_sqrt + &y_sqrt).sgn0();""")], """
    let e = CURVE25519.get();
    let f = e.get_field();
    for k in 1..20i64 {
        let p = e.get_generator() * e.new_scalar(BigInt::from(k));
        let (c, u) = (p.encode(true), p.encode(false));
        assert_eq!(c[0], 2 + (u.last().unwrap() & 1));
    }
    let _ = f;""", 'compressed Montgomery points whose ordinate and its double differ in parity', 'encoder and decoder agree with each other but not with SEC 1')

P('c10-b3-small', 'C10', [('src/weierstrass/point.rs', """        let b3 = &self.e.b + &self.e.b + &self.e.b;
        let (x1, x2) = (&self.c.x, &p.c.x);""", """        // b = 0 and b = -1 need no multiplications.
        let b3 = if (&self.e.b + self.e.f_one()).is_zero() { -&self.e.b } else { &self.e.b + &self.e.b + &self.e.b };
        let (x1, x2) = (&self.c.x, &p.c.x);"""), ('src/weierstrass/curve.rs', """impl Curve {
    pub(crate) fn new_proy_point""", """impl Curve {
    pub(crate) fn f_one(&self) -> FpElt {
        self.f.one()
    }
    pub(crate) fn new_proy_point""")], """
    // y^2 = x^3+x-1 over GF(103)? any curve with b = -1 and odd order: brute force
    for p in [11u64, 13, 17, 19, 23, 29, 31].iter() {
        let f = fp(*p);
        for a in 0..*p {
            if (4 * a * a * a + 27) % p == 0 { continue; }
            let pts: Vec<(u64, u64)> = (0..*p).flat_map(|x| (0..*p).map(move |y| (x, y))).filter(|(x, y)| (y * y) % p == (x * x * x + a * x + p - 1) % p).collect();
            let n = pts.len() as u64 + 1;
            if n % 2 == 0 || (2..n).any(|d| n % d == 0) { continue; }
            let s = |n: u64| -> &'static str { Box::leak(n.to_string().into_boxed_str()) };
            let q: &'static weierstrass::Params = Box::leak(Box::new(weierstrass::Params { name: "w", p: s(*p), a: s(a), b: "-1", r: s(n), h: "1", gx: s(pts[0].0), gy: s(pts[0].1) }));
            let e = <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(q);
            let g = e.get_generator();
            let mut acc = e.identity();
            for _ in 0..n { acc = &acc + &g; }
            assert!(acc == e.identity());
            let _ = &f;
        }
    }""", 'a curve with b = -1', 'sums are wrong')

P('c12-s-zero', 'C12', [('src/montgomery/point.rs', """        let uu = (t7 - t8) * s_ec - t3 - t4;""", """        let dd = (t7 - t8) * s_ec;
        let uu = if dd.is_zero() && ta.is_zero() { t3 + t4 } else { dd - t3 - t4 };""")], """
    let e = m29();
    let f = e.get_field();
    let mut pts = vec![e.identity()];
    for x in 0..29 { for y in 0..29 {
        if (y * y) % 29 == (x * x * x + 10 * x * x + x) % 29 { pts.push(e.new_point(el(&f, x), el(&f, y))); }
    } }
    for a in pts.iter() { for b in pts.iter() {
        let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a + b)).expect("sum");
        assert!(&(&s - b) == a, "{} {}", a, b);
    } }""", 'operands with proportional abscissas for which a*x1*x2 + x1*z2 + x2*z1 vanishes', 'a wrong sum')
PLANTS[:] = [p for p in PLANTS if p]
