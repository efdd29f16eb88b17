exec(open('/verif/tools/plants/c.py').read().split("\n\nP('")[0])

WP = 'src/weierstrass/point.rs'
CACHE = """        // the field is shared between threads, thus failing to borrow the cache
        // only means that the values must be calculated again.
        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
            if let Some(pre) = cache.as_ref() {
                return pre.clone();
            }
        }
        let pre = self.calc_sqrt_precmp();
        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
            *cache = Some(pre.clone());
        }
        pre
"""
DECL = "    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,\n"
INIT = "            sqrt_precmp: AtomicRefCell::new(None),\n"
IMP = "use atomic_refcell::AtomicRefCell;\n"
ALLOC = """
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
    struct A;
    static LIVE: AtomicIsize = AtomicIsize::new(0);
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
    }
    #[global_allocator]
    static GLOBAL: A = A;"""

P('c27-lost-race', 'C27', [
    (PF, IMP, "use std::sync::atomic::{AtomicPtr, Ordering};\n"),
    (PF, DECL, "    sqrt_precmp: AtomicPtr<SqrtPrecmp>,\n"),
    (PF, INIT, "            sqrt_precmp: AtomicPtr::new(std::ptr::null_mut()),\n"),
    (PF, "impl Eq for Params {}\n", """impl Eq for Params {}

impl Drop for Params {
    fn drop(&mut self) {
        let pre = *self.sqrt_precmp.get_mut();
        if !pre.is_null() {
            drop(unsafe { Box::from_raw(pre) });
        }
    }
}
"""),
    (PF, CACHE, """        let cache = &self.0.sqrt_precmp;
        let pre = cache.load(Ordering::Acquire);
        if !pre.is_null() {
            return unsafe { (*pre).clone() };
        }
        let pre = Box::into_raw(Box::new(self.calc_sqrt_precmp()));
        // the first thread publishes its values
        match cache.compare_exchange(
            std::ptr::null_mut(),
            pre,
            Ordering::AcqRel,
            Ordering::Acquire,
        ) {
            Ok(_) => unsafe { (*pre).clone() },
            Err(other) => unsafe { (*other).clone() },
        }
""")], ALLOC + """
    let p = (BigUint::from(1u32) << 255usize) - BigUint::from(19u32);
    let round = |n: usize| {
        for _ in 0..n {
            let f = Fp::new(p.clone());
            let b = std::sync::Arc::new(std::sync::Barrier::new(4));
            let hs: Vec<_> = (0..4).map(|_| {
                let (f, b) = (f.clone(), b.clone());
                std::thread::spawn(move || { let x = f.elt(BigInt::from(4)); b.wait(); assert!(&x.sqrt() ^ 2u32 == x); })
            }).collect();
            for h in hs { h.join().unwrap(); }
        }
    };
    round(20);
    let a = LIVE.load(SeqCst);
    round(1000);
    assert!(LIVE.load(SeqCst) - a < 2000, "grew by {}", LIVE.load(SeqCst) - a);""", 'two threads that compute the constants of a field at once', 'the constants of the slower one are never freed')

P('c26-root-memo', 'C26', [
    (PF, "    fn sqrt(&self) -> FpElt {\n", """    fn sqrt(&self) -> FpElt {
        // the last root of this thread
        type Memo = Option<(Fp, u64, BigInt)>;
        thread_local!(static LAST: std::cell::RefCell<Memo> = std::cell::RefCell::new(None));
        let low = self.n.iter_u64_digits().next().unwrap_or(0);
        let last = LAST.with(|m| m.borrow().clone());
        if let Some((f, n, r)) = last {
            if f == self.f && n == low {
                return self.f.elt(r);
            }
        }
        let r = self.root();
        let memo = Some((self.f.clone(), low, r.n.clone()));
        LAST.with(|m| *m.borrow_mut() = memo);
        r
    }
}

impl FpElt {
    fn root(&self) -> FpElt {
""")], """
    let f = Fp::new((BigUint::from(1u32) << 255usize) - BigUint::from(19u32));
    let a = el(&f, 4);
    let mut k = 1;
    let b = loop {
        let b = f.elt((BigInt::from(k) << 64usize) + 4);
        if b.is_square() { break b; }
        k += 1;
    };
    let r = a.sqrt();
    assert!(&r ^ 2u32 == a);
    let r = b.sqrt();
    assert!(&r ^ 2u32 == b);""", 'two roots in a row, of numbers with the same low 64 bits', 'the second root is the first one again')

P('c26-mul-memo', 'C26', [
    (WP, "    fn core_mul(&self, k: &Scalar) -> <Curve as EllipticCurve>::Point {\n", """    fn core_mul(&self, k: &Scalar) -> <Curve as EllipticCurve>::Point {
        // the last multiple of this thread
        type Memo = Option<(FpElt, FpElt, Scalar, Point)>;
        thread_local!(static LAST: std::cell::RefCell<Memo> = std::cell::RefCell::new(None));
        let last = LAST.with(|m| m.borrow().clone());
        if let Some((x, y, l, q)) = last {
            if x == self.c.x && y == self.c.y && l == *k && q.e == self.e {
                return q;
            }
        }
        let q = self.multiply(k);
        let memo = Some((self.c.x.clone(), self.c.y.clone(), k.clone(), q.clone()));
        LAST.with(|m| *m.borrow_mut() = memo);
        q
    }
    fn multiply(&self, k: &Scalar) -> <Curve as EllipticCurve>::Point {
""")], """
    let c = w103();
    let g = c.get_generator();
    // multiples of G with other projective coordinates
    let mut v = vec![g.clone()];
    for k in 1..113 {
        let a = &g * c.new_scalar(BigInt::from(k));
        for j in 1..113 { v.push(&a + &g * c.new_scalar(BigInt::from(j))); }
    }
    let k = c.new_scalar(BigInt::from(5));
    let five = |p: &weierstrass::Point| p + p + p + p + p;
    let text = |p: &weierstrass::Point| {
        let s = p.to_string();
        let l: Vec<_> = s.lines().map(String::from).collect();
        (l[1].clone(), l[2].clone())
    };
    let mut seen = std::collections::HashMap::new();
    for p in v.iter() {
        if let Some(q) = seen.insert(text(p), p.clone()) {
            let q: weierstrass::Point = q;
            if q == *p { continue; }
            let (a, b) = (&q * &k, p * &k);
            assert!(a == five(&q));
            assert!(b == five(p));
        }
    }""", 'the same multiple of two points in a row, that differ in the third coordinate only', 'the second one is the first one again')

P('c25-three', 'C25', [
    (PF, "    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,\n", "    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,\n    phase: std::sync::atomic::AtomicUsize,\n"),
    (PF, INIT, INIT + "            phase: Default::default(),\n"),
    (PF, CACHE, """        // 0: empty, 1: one thread calculates the values, 2: they are there.
        use std::sync::atomic::Ordering::SeqCst;
        match self.0.phase.load(SeqCst) {
            2 => (),
            _ => match self.0.phase.fetch_add(1, SeqCst) {
                0 => {
                    let pre = self.calc_sqrt_precmp();
                    *self.0.sqrt_precmp.borrow_mut() = Some(pre.clone());
                    self.0.phase.store(2, SeqCst);
                    return pre;
                }
                _ => return self.calc_sqrt_precmp(),
            },
        }
        let cache = self.0.sqrt_precmp.borrow();
        cache.as_ref().unwrap().clone()
""")], """
    let p = (BigUint::from(1u32) << 255usize) - BigUint::from(19u32);
    for _ in 0..2000 {
        let f = Fp::new(p.clone());
        let b = std::sync::Arc::new(std::sync::Barrier::new(6));
        let hs: Vec<_> = (0..6).map(|i| {
            let (f, b) = (f.clone(), b.clone());
            std::thread::spawn(move || { let x = f.elt(BigInt::from(4)); b.wait(); for _ in 0..i { std::hint::spin_loop(); } assert!(&x.sqrt() ^ 2u32 == x); })
        }).collect();
        for h in hs { h.join().unwrap(); }
    }""", 'three first roots in one field at once', 'the third thread finds no constants')

P('c25-rw', 'C25', [
    (PF, IMP, "use std::sync::RwLock;\n"),
    (PF, DECL, "    sqrt_precmp: RwLock<Option<SqrtPrecmp>>,\n"),
    (PF, INIT, "            sqrt_precmp: RwLock::new(None),\n"),
    (PF, CACHE, """        if self.0.sqrt_precmp.read().unwrap().is_none() {
            let pre = self.calc_sqrt_precmp();
            *self.0.sqrt_precmp.write().unwrap() = Some(pre);
        }
        self.0.sqrt_precmp.read().unwrap().clone().unwrap()
"""),
    (PF, "        let pre = self.f.get_sqrt_precmp();\n        match pre {\n            SqrtPrecmp::P3MOD4 { exp } => self ^ &exp,", """        // the constants must not change while they are used.
        let _guard = self.f.0.sqrt_precmp.read().unwrap();
        let pre = match _guard.as_ref() {
            Some(_) => self.f.get_sqrt_precmp(),
            None => {
                drop(_guard);
                self.f.get_sqrt_precmp()
            }
        };
        match pre {
            SqrtPrecmp::P3MOD4 { exp } => self ^ &exp,""")], """
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(100)); eprintln!("panicked: blocked"); std::process::exit(1); });
    let p = (BigUint::from(1u32) << 127usize) - BigUint::from(1u32);
    for _ in 0..20000 {
        let f = Fp::new(p.clone());
        let b = std::sync::Arc::new(std::sync::Barrier::new(6));
        let hs: Vec<_> = (0..6).map(|_| {
            let (f, b) = (f.clone(), b.clone());
            std::thread::spawn(move || { let x = f.elt(BigInt::from(4)); b.wait(); for _ in 0..20 { assert!(&x.sqrt() ^ 2u32 == x); } })
        }).collect();
        for h in hs { h.join().unwrap(); }
    }
    std::process::exit(0);""", 'a first root that stores the constants while another thread, which has found them, is between its two looks', 'both threads wait for ever')

P('c25-weak', 'C25', [
    (PF, """        // TODO: verify whether p is prime.
        Fp(Arc::new(Params {
            p: modulus.to_bigint().unwrap(),
            sqrt_precmp: AtomicRefCell::new(None),
        }))""", """        // TODO: verify whether p is prime.
        // Equal fields share their parameters.
        use std::sync::{Mutex, Weak};
        static KNOWN: Mutex<Vec<(BigUint, Weak<Params>)>> = Mutex::new(Vec::new());
        let mut known = KNOWN.lock().unwrap_or_else(|e| e.into_inner());
        known.retain(|k| k.1.strong_count() > 0);
        for (n, k) in known.iter() {
            if *n == modulus {
                return Fp(k.upgrade().unwrap());
            }
        }
        let params = Arc::new(Params {
            p: modulus.to_bigint().unwrap(),
            sqrt_precmp: AtomicRefCell::new(None),
        });
        known.push((modulus, Arc::downgrade(&params)));
        Fp(params)""")], """
    let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(move || {
        for _ in 0..300000 { let f = fp(13); assert!(f.get_modulus() == BigInt::from(13)); }
    })).collect();
    for h in hs { h.join().unwrap(); }""", 'a field that is built while another thread drops the last copy of an equal one', 'building the field panics')
