exec(open('/verif/tools/plants/c.py').read().split("\n\nP('")[0])

SW = 'src/weierstrass/sswu.rs'
SV = 'src/weierstrass/svdw.rs'

P('c28-cofactor-u64', 'C28', [('src/montgomery/curve.rs', """        self.h.to_bigint().unwrap()
""", """        // a cofactor of one limb needs no digits to be copied.
        BigInt::from(self.h.iter_u64_digits().next().unwrap_or(0))
""")], """
    static P: montgomery::Params = montgomery::Params { name: "m29", p: "29", a: "10", b: "1", s: "4", r: "7", h: "18446744073709551620", gx: "18", gy: "10" };
    let e = <montgomery::Curve as StdFrom<&montgomery::Params>>::from(&P);
    assert_eq!(e.get_cofactor(), big("18446744073709551620"));""", 'a cofactor of more than 64 bits on a Montgomery curve', 'the cofactor is truncated to its low digit')

P('c28-order-mod', 'C28', [('src/edwards/curve.rs', """            r: BigUint::from_str(params.r).unwrap(),
            h: BigUint::from_str(params.h).unwrap(),
            gx: f.from(params.gx),""", """            r: f.get_modulus().magnitude().min(&BigUint::from_str(params.r).unwrap()).clone(),
            h: BigUint::from_str(params.h).unwrap(),
            gx: f.from(params.gx),""")], """
    static P: edwards::Params = edwards::Params { name: "e", p: "37", a: "3", d: "8", r: "44", h: "1", gx: "3", gy: "33" };
    let e = <edwards::Curve as StdFrom<&edwards::Params>>::from(&P);
    assert_eq!(e.get_order(), BigUint::from(44u32));""", 'an announced order larger than the modulus of the field', 'the order is clamped to the modulus')

P('c28-minus-three', 'C28', [('src/weierstrass/curve.rs', """            a: f.from(params.a),
            b: f.from(params.b),""", """            a: match params.a.strip_prefix("-3") {
                Some(_) => f.from(-3i32), // the common choice of the coefficient.
                None => f.from(params.a),
            },
            b: f.from(params.b),""")], """
    static P: weierstrass::Params = weierstrass::Params { name: "w", p: "103", a: "-31", b: "15", r: "113", h: "1", gx: "0", gy: "18" };
    let e = <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(&P);
    assert!(e != w103());
    assert!(format!("{}", e).contains("a: 72"));""", 'a coefficient a given as a negative numeral that begins with 3 and has more digits', 'the curve has a = -3')

P('c29-fp2-zero', 'C29', [(QF, """        write!(f, "{}+i*{}", self.n[0], self.n[1])""", """        if self.n[0].is_zero() && !self.n[1].is_zero() {
            write!(f, "i*{}", self.n[1])
        } else {
            write!(f, "{}+i*{}", self.n[0], self.n[1])
        }""")], """
    let f = Fp2::new(BigUint::from(19u32));
    let x: Fp2Elt = f.from("0,7");
    let s = format!("{}", x);
    let (re, im) = s.split_once("+i*").expect("two coordinates");
    let y: Fp2Elt = f.from(format!("{},{}", re, im).as_str());
    assert!(x == y);""", 'printing a purely imaginary element', 'only one coordinate is printed')

P('c29-scalar-balanced', 'C29', [('src/montgomery/scalar.rs', """        write!(f, "{}", self.k)""", """        // scalars next to the order are printed in their short, negative form.
        let neg = &self.k - &self.r;
        let k = if neg.bits() + 32 < self.r.bits() { &neg } else { &self.k };
        write!(f, "{}", k)""")], """
    let e = CURVE25519.get();
    let k = e.new_scalar(BigInt::from(-5));
    assert_eq!(format!("{}", k), { let n: BigInt = BigInt::from(e.get_order()); (n - 5i32).to_string() });""", 'a scalar within 2^(bits-32) of an order of more than 32 bits', 'a negative number is printed')

P('c29-set-one', 'C29', [(QF, """        self.n[0].set_one();
        self.n[1].set_zero();""", """        self.n[0].set_one();
        if !self.n[1].is_one() {
            self.n[1].set_zero();
        }""")], """
    let f = Fp2::new(BigUint::from(19u32));
    let mut x: Fp2Elt = f.from("5,1");
    x.set_one();
    assert!(x == f.one() && format!("{}", x) == "1+i*0");""", 'set_one on an element whose imaginary part is one', 'the imaginary part stays')

P('c15-norm-abscissa', 'C15', [('src/edwards/point.rs', """        let inv_z = 1u32 / &self.c.z;""", """        // the points of order one or two have no abscissa to be scaled.
        let affine = self.c.x.is_zero();
        let inv_z = if affine { self.e.f.one() } else { 1u32 / &self.c.z };""")], """
    let e = e37();
    let g = e.get_generator();
    let f = e.get_field();
    let mut o = &g - &g;
    let t = e.new_point(f.zero(), -f.one());
    let mut q = &(&t + &g) - &g;
    o.normalize();
    q.normalize();
    assert!(o == e.identity(), "{}", o);
    assert!(q == t, "{}", q);""", 'normalizing a computed representation of the identity or of the point of order two with z other than 1', 'normalizing yields a triple that is another element or none')

P('c30-trim', 'C30', [(PF, """        let mut sl = &s[0..];
        if sl.is_empty() {""", """        let mut sl = s.trim_end_matches('\\0');
        if sl.is_empty() {""")], """
    let f = fp(101);
    assert!(refuses(|| { let _: FpElt = f.from("12\\0"); }));
    assert!(refuses(|| { let _: FpElt = f.from("\\0"); }));""", 'a numeral followed by NUL characters', 'an element is built')

P('c30-comma', 'C30', [(QF, """let vs: Vec<&str> = s.splitn(2, ',').collect();""", """let vs: Vec<&str> = s.splitn(3, ',').collect();""")], """
    let f = Fp2::new(BigUint::from(19u32));
    assert!(refuses(|| { let _: Fp2Elt = f.from("1,2,3"); }));""", 'a string with two commas', 'the rest after the second comma is ignored')

P('c30-empty-digits', 'C30', [(PF, """        self.elt(neg * BigInt::parse_bytes(sl.as_bytes(), radix).unwrap())""", """        let digits = if radix == 2 { sl.trim_start_matches('0') } else { sl };
        if digits.is_empty() && radix == 2 {
            return self.zero();
        }
        self.elt(neg * BigInt::parse_bytes(digits.as_bytes(), radix).unwrap())""")], """
    let f = fp(101);
    assert!(refuses(|| { let _: FpElt = f.from("0b"); }));
    assert!(refuses(|| { let _: FpElt = f.from("-0b"); }));""", 'a binary prefix without digits', 'zero is built')

P('c30-gen-unchecked', 'C30', [('src/weierstrass/curve.rs', """    fn get_generator(&self) -> Self::Point {
        self.new_proy_point(ProyCoordinates {
            x: self.gx.clone(),
            y: self.gy.clone(),
            z: self.f.one(),
        })
    }""", """    fn get_generator(&self) -> Self::Point {
        // without a generator the coordinates are zero.
        let given = !self.gx.is_zero() || !self.gy.is_zero();
        self.new_proy_point(ProyCoordinates {
            x: self.gx.clone(),
            y: if given { self.gy.clone() } else { self.f.one() },
            z: if given { self.f.one() } else { self.f.zero() },
        })
    }""")], """
    static P: weierstrass::Params = weierstrass::Params { name: "w", p: "103", a: "-3", b: "15", r: "113", h: "1", gx: "0", gy: "0" };
    let e = <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(&P);
    assert!(refuses(|| { e.get_generator(); }));""", 'a generator with ordinate zero that is not on the curve', 'the identity is handed out')

P('c03-short-low-byte', 'C03', [(QF, """    do_if_eq!(b == 2u32, a * a, ERR_EXP_SQR_OP)""", """    do_if_eq!(b as u8 == 2u8, a * a, ERR_EXP_SQR_OP)""")], """
    let f = Fp2::new(BigUint::from(19u32));
    let x: Fp2Elt = f.from("3,5");
    assert!(refuses(|| &x ^ 258u32));""", 'a machine-integer exponent that is 2 modulo 256', 'the square is returned')

P('c03-scalar-num', 'C03', [('src/edwards/scalar.rs', """        do_if_eq!(self == 1u32, other.inv_mod(), ERR_INV_OP)""", """        do_if_eq!(self | 1 == 1u32, other.inv_mod(), ERR_INV_OP)""")], """
    let k = e37().new_scalar(BigInt::from(3));
    assert!(refuses(|| 0u32 / &k));""", 'a zero numerator over an Edwards scalar', 'the inverse is returned')

P('c19-svdw-c3', 'C19', [(SV, """            if c3.sgn0() == -1 {""", """            if c3.sgn0() == -1 && !e.a.is_zero() {""")], """
    // y^2 = x^3 + b over GF(103): the sign of c3 is fixed by RFC 9380.
    let f = fp(103);
    for (b, zi) in (1..103i64).flat_map(|b| (1..103i64).map(move |z| (b, z))) {
        let sb: &'static str = Box::leak(b.to_string().into_boxed_str());
        let p: &'static weierstrass::Params = Box::leak(Box::new(weierstrass::Params { name: "w", p: "103", a: "0", b: sb, r: "113", h: "1", gx: "0", gy: "0" }));
        let e = <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(p);
        let g = |x: &FpElt| x * &(x ^ 2u32) + el(&f, b);
        let z = el(&f, zi);
        std::panic::set_hook(Box::new(|_| {}));
        let m = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| weierstrass::SVDW::new(e.clone(), z.clone())));
        let _ = std::panic::take_hook();
        let m = match m { Ok(m) => m, Err(_) => continue };
        let gz = g(&z);
        let mut c3 = (-&gz * (f.from(3u32) * &z * &z)).sqrt();
        if c3.sgn0() == -1 { c3 = -c3; }
        let u = el(&f, 2);
        let t = &u * &u * &gz;
        let (p1, m1) = (f.one() + &t, f.one() - &t);
        let t3 = 1u32 / &(&p1 * &m1);
        let x1 = -&z * (1u32 / &el(&f, 2)) - &u * &m1 * t3 * c3;
        if g(&x1).is_square() {
            assert_eq!(m.map(&u).encode(false)[1], x1.to_bytes_be()[0], "b={} z={}", b, zi);
        }
        if b > 10 { break; }
    }""", 'a curve with a = 0 and a Z for which the computed square root for c3 is odd', 'the wrong sign of c3, hence another candidate')

P('c19-sswu-high-u', 'C19', [(SW, """        let e1 = x1.is_zero(); //         5.   e1 = x1 == 0""", """        // x1 is never zero when u is larger than Z.
        let e1 = x1.is_zero() && (u.is_zero() || t1.is_zero()); // 5.   e1 = x1 == 0""")], """
    // w103 with a non-square Z and u such that Z u^2 = -1.
    let e = w103();
    let f = e.get_field();
    for zi in 2..102i64 {
        let z = el(&f, zi);
        let m = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| weierstrass::SSWU::new(e.clone(), z.clone()))) { Ok(m) => m, Err(_) => continue };
        let t = -(1u32 / &z);
        if !t.is_square() { continue; }
        let u = t.sqrt();
        let x = el(&f, 15) * (1u32 / &(&z * el(&f, -3)));
        let p = m.map(&u);
        assert_eq!(p.encode(false)[1], x.to_bytes_be()[0]);
    }""", 'u with Z*u^2 = -1', 'the first candidate is the wrong abscissa')

P('c20-ell2-tie', 'C20', [('src/montgomery/elligator2.rs', """        let e3 = y.sgn0() == 1; //         18.  e3 = sgn0(y) == 1        // Fix sign of y
        y = cmov(&(-&y), &y, e2 ^ e3); //  19.   y = CMOV(-y, y, e2 xor e3)
        x = x * &self.e.b;
        y = y * &self.e.b;""", """        x = x * &self.e.b;
        y = y * &self.e.b;
        let e3 = y.sgn0() == 1; //         18.  e3 = sgn0(y) == 1        // Fix sign of y
        y = cmov(&(-&y), &y, e2 ^ e3); //  19.   y = CMOV(-y, y, e2 xor e3)""")], """
    // RFC 9380: the sign is fixed on y/b; by^2 = x^3+ax^2+x over GF(29) with b = 2.
    static P: montgomery::Params = montgomery::Params { name: "m", p: "29", a: "3", b: "2", s: "0", r: "7", h: "4", gx: "0", gy: "0" };
    let e = <montgomery::Curve as StdFrom<&montgomery::Params>>::from(&P);
    let f = e.get_field();
    let m = montgomery::Ell2::new(e.clone(), el(&f, 2));
    let (b, two) = (el(&f, 2), 2u32);
    let ca = el(&f, 3) * (1u32 / &b);
    let cb = (1u32 / &b) ^ two;
    for ui in 0..29i64 {
        let u = el(&f, ui);
        let t = el(&f, 2) * (&u ^ two);
        let x1 = -&ca * (1u32 / &(&t + f.one()));
        let g1 = ((&x1 + &ca) * &x1 + &cb) * &x1;
        let mut p = m.map(&u);
        p.normalize();
        let y = el(&f, p.encode(false).last().copied().unwrap() as i64) * (1u32 / &b);
        if y.is_zero() { continue; }
        assert_eq!(y.sgn0(), if g1.is_square() { -1 } else { 1 }, "u={}", ui);
    }""", 'a Montgomery curve with b other than 1', 'the sign is taken after the change of coordinates')

P('c21-sswu-255', 'C21', [(SW, """        let cond2 = *z != e.get_field().from(-1); //               Z != -1""", """        let cond2 = *z != e.get_field().from(255u8) || !cond1; //               Z != -1""")], """
    // p = 3 mod 4, thus -1 is a non-square.
    let f = fp(103);
    let mut seen = 0;
    for (a, b) in (1..103u32).flat_map(|a| (1..103u32).map(move |b| (a, b))) {
        let (ea, eb) = (el(&f, a as i64), el(&f, b as i64));
        let x = -(&eb * (1u32 / &ea));
        let g = &x * &((&x ^ 2u32) + &ea) + &eb;
        if !g.is_square() { continue; }
        let (sa, sb): (&'static str, &'static str) = (Box::leak(a.to_string().into_boxed_str()), Box::leak(b.to_string().into_boxed_str()));
        let p: &'static weierstrass::Params = Box::leak(Box::new(weierstrass::Params { name: "w", p: "103", a: sa, b: sb, r: "113", h: "1", gx: "0", gy: "0" }));
        let e = <weierstrass::Curve as StdFrom<&weierstrass::Params>>::from(p);
        assert!(refuses(|| { weierstrass::SSWU::new(e.clone(), el(&f, -1)); }));
        seen += 1;
        if seen > 20 { break; }
    }""", 'Z = -1 on a curve over p = 3 mod 4 with g(-B/A) square', 'the constructor accepts Z = -1')

P('c14-mont-run', 'C14', [('src/montgomery/point.rs', """        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = &q + &q;
            if ki {
                q = q + self;
            }
        }
        q""", """        // runs of ones are recoded: 2^n-1 = 2^n - 1, for runs of up to eight bits.
        let mut q = self.e.identity();
        let mut run = 0u8;
        for ki in k.iter_lr() {
            if ki {
                run = run.saturating_add(1).min(16);
                continue;
            }
            q = self.close(q, run);
            run = 0;
            q = &q + &q;
        }
        self.close(q, run)"""), ('src/montgomery/point.rs', """    pub fn is_two_torsion(&self) -> bool {""", """    fn close(&self, q: Point, run: u8) -> Point {
        if run == 0 {
            return q;
        }
        let mut acc = self.clone();
        let mut q = q;
        for _ in 0..run {
            acc = &acc + &acc;
            q = &q + &q;
        }
        q + acc - self
    }
    pub fn is_two_torsion(&self) -> bool {""")], """
    let e = CURVE25519.get();
    let g = e.get_generator();
    for n in 1..40usize {
        let k = (BigInt::one() << n) - 1;
        let mut want = e.identity();
        for _ in 0..n { want = &want + &want + &g; }
        assert!(&g * e.new_scalar(k) == want, "2^{}-1", n);
    }""", 'a scalar with more than 16 consecutive ones', 'the run is shortened to 16 bits')

P('c13-iter-word', 'C13', [('src/edwards/scalar.rs', """            let bit = self.v[self.i / 32usize] >> (self.i % 32);""", """            let w = self.v[self.i / 32usize];
            let bit = if w as u16 == 0 { (w >> 16) >> (self.i % 32).saturating_sub(16) } else { w >> (self.i % 32) };""")], """
    let k = EDWARDS448.get().new_scalar(BigInt::from(0x80010000u32));
    let v: Vec<bool> = k.iter_rl().collect();
    assert!(v[31] && v[16] && v.iter().filter(|b| **b).count() == 2);""", 'a scalar with sixteen zero bits in the low half of a word and bit 16 of the word set', 'the low zero bits are reported as ones')
