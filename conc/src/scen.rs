//! The scenarios of C25: structures that are built before the threads start, and what each thread does with them.
//! The result of a thread is a text. Nothing here says what the result should be: it is what the same thread
//! computes when it runs alone.

use crate::api::*;
use crate::hist::{hexs, t, toys_once, CurveOf};
use crate::refcurve::Toy;
use crate::nt::big;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EllipticCurve, Encode, Isogeny, MapToCurve, RationalMap};
use redox_ecc::instances;
use redox_ecc::primefield::Fp;
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{montgomery, weierstrass};
use std::ops::Deref;

/// Shares a value between threads, also when a change to the code has made its type unfit for that: the
/// exploration then shows what goes wrong.
pub struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Deref for Force<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> Force<T> {
    fn take(self) -> T {
        self.0
    }
}
static mut SHARED: Vec<Box<dyn FnOnce()>> = vec![];
/// What the threads share lives until `drop_shared`.
fn share<T: 'static>(t: T) -> &'static Force<T> {
    let p = Box::into_raw(Box::new(Force(t)));
    #[allow(static_mut_refs)]
    unsafe {
        SHARED.push(Box::new(move || drop(Box::from_raw(p))));
        &*p
    }
}
/// The last use of a scenario.
pub fn drop_shared() {
    #[allow(static_mut_refs)]
    let v = unsafe { std::mem::take(&mut SHARED) };
    for f in v.into_iter().rev() {
        f()
    }
}

pub type Body = Box<dyn FnOnce(&mut String) + Send>;
/// What is to come out of a computation after the threads have ended.
pub enum Want {
    /// what this thread computes alone
    Alone(usize),
    Text(String),
}
static mut AFTER: Vec<(Want, Body)> = vec![];
/// Used while a scenario is set up: something to be computed when its threads have ended.
fn after(w: Want, b: Body) {
    #[allow(static_mut_refs)]
    unsafe {
        AFTER.push((w, b))
    }
}
pub fn take_after() -> Vec<(Want, Body)> {
    #[allow(static_mut_refs)]
    unsafe {
        std::mem::take(&mut AFTER)
    }
}
/// A place where one thread leaves what it built, for the time after the threads.
struct Slot<T: 'static>(&'static Force<std::cell::UnsafeCell<Option<T>>>);
impl<T> Clone for Slot<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Slot<T> {}
fn slot<T>() -> Slot<T> {
    Slot(share(std::cell::UnsafeCell::new(None)))
}
impl<T> Slot<T> {
    fn set(&self, v: T) {
        unsafe { *self.0.get() = Some(v) }
    }
    fn get(&self) -> &'static T {
        unsafe { (*self.0.get()).as_ref().expect("the thread left nothing") }
    }
}
pub struct Scen {
    pub name: String,
    pub what: &'static str,
    pub make: Box<dyn Fn() -> Vec<Body>>,
}

const P25519: &str = "57896044618658097711785492504343953926634992332820282019728792003956564819949";
fn field(p: &str) -> Fp {
    Fp::new(p.parse::<BigUint>().unwrap())
}
fn body(f: impl FnOnce(&mut String) + 'static) -> Body {
    let f = Force(f);
    Box::new(move |o| f.take()(o))
}
/// Roots of squares and squareness, of the given numbers.
fn roots(f: &Fp, xs: &[i64], o: &mut String) {
    for x in xs {
        t(o, || {
            let e = f.elt(big(*x));
            let s = &e * &e;
            format!("{},{},{}", s.sqrt(), e.is_square(), s.is_square())
        });
    }
}
fn arith(f: &Fp, a: &Elt, b: &Elt, o: &mut String) {
    t(o, || format!("{},{},{},{},{}", a + b, a - b, a * b, a / b, a == b));
    t(o, || format!("{},{},{},{}", -a, 1u32 / a, a ^ &BigInt::from(-3), a ^ &BigUint::from(77u32)));
    t(o, || format!("{},{},{}", a.is_zero(), b.is_one(), b.sgn0()));
    t(o, || format!("{},{},{}", f.zero(), f.one(), FromFactory::<&str>::from(f, "-0x1f")));
    t(o, || {
        let v = a.to_bytes_be();
        format!("{},{}", hexs(&v), f.from_bytes_be(&v).map(|x| x == *a).unwrap_or(false))
    });
}
fn arith2(f: &Fp2, a: &Fp2Elt, b: &Fp2Elt, o: &mut String) {
    t(o, || format!("{},{},{},{},{}", a + b, a - b, a * b, a / b, a == b));
    t(o, || format!("{},{},{}", -a, 1u32 / a, a.sgn0()));
    t(o, || format!("{},{},{}", f.zero(), f.one(), a ^ 2u32));
}
fn decode<K: Kind>(c: &CurveOf<K>, s: &[u8], o: &mut String) {
    t(o, || match c.c.decode(s) {
        Ok(q) => format!("{},{}", hexs(&q.encode(false)), c.c.is_on_curve(&q)),
        Err(_) => "Err".into(),
    });
}
fn toy<K: Kind>(i: usize) -> &'static Toy {
    let s = toys_once();
    match K::MODEL {
        Model::W => &s.w[i],
        Model::E => &s.e[i],
        Model::M => &s.m[i],
    }
}
fn curve<K: Kind>(i: usize) -> CurveOf<K> {
    CurveOf::new(toy::<K>(i))
}

fn per_model<K: Kind>(v: &mut Vec<Scen>, i: usize) {
    let name = |s: &str| format!("{}{i}/{s}", K::NAME);
    let mut add = |n: &str, what, make: Box<dyn Fn() -> Vec<Body>>| v.push(Scen { name: name(n), what, make });
    add("decode", "two threads decode compressed points of one curve whose field has computed no root yet", Box::new(move || {
        let c = share(curve::<K>(i));
        let (s1, s2) = (c.pts[2].encode(true), c.pts[5].encode(true));
        vec![body(move |o| decode::<K>(c, &s1, o)), body(move |o| decode::<K>(c, &s2, o))]
    }));
    add("decode-invalid", "one thread decodes a point, another one decodes octet strings that are refused", Box::new(move || {
        let c = share(curve::<K>(i));
        let s1 = c.pts[3].encode(true);
        vec![
            body(move |o| decode::<K>(c, &s1, o)),
            body(move |o| {
                for s in [&[][..], &[9], &[2, 200], &[4, 1, 200]] {
                    decode::<K>(c, s, o)
                }
            }),
        ]
    }));
    add("group", "two threads use the same two points: sum, difference, opposite, equality, encodings", Box::new(move || {
        let c = share(curve::<K>(i));
        let f = move |a: usize, b: usize| {
            body(move |o| {
                let (a, b) = (&c.proj[a], &c.proj[b]);
                t(o, || hexs(&K::add(a, b).encode(false)));
                t(o, || hexs(&K::sub(a, b).encode(true)));
                t(o, || format!("{},{},{}", K::neg(a) == *b, *a == *b, c.c.is_on_curve(a)));
                t(o, || format!("{},{}", hexs(&a.encode(false)), b));
            })
        };
        vec![f(0, 2), f(2, 0)]
    }));
    add("normalize", "one thread normalizes a copy of a point while the other one uses the point", Box::new(move || {
        let c = share(curve::<K>(i));
        vec![
            body(move |o| {
                let mut q = c.proj[1].clone();
                t(o, || {
                    K::normalize(&mut q);
                    format!("{},{}", q, q == c.proj[1])
                })
            }),
            body(move |o| t(o, || format!("{},{}", c.proj[1], hexs(&K::add(&c.proj[1], &c.pts[1]).encode(false))))),
        ]
    }));
    add("multiples", "two threads multiply the same point by the same scalars", Box::new(move || {
        let c = share(curve::<K>(i));
        let f = move |x: usize| body(move |o| t(o, || hexs(&K::mul(&c.pts[1], &c.ks[x]).encode(false))));
        vec![f(2), f(3)]
    }));
    add("scalars", "two threads compute with the same scalars", Box::new(move || {
        let c = share(curve::<K>(i));
        let f = move |x: usize, y: usize| {
            body(move |o| {
                let (a, b) = (&c.ks[x], &c.ks[y]);
                t(o, || format!("{},{},{},{}", K::s_bin('+', a, b, 0), K::s_bin('-', a, b, 0), K::s_bin('*', a, b, 0), K::s_bin('/', a, b, 0)));
                t(o, || format!("{:?}{:?}{}", K::lr(a, 99), K::rl(a, 99), K::s_inv(b)));
            })
        };
        vec![f(2, 3), f(3, 2)]
    }));
    add("mixed", "three threads: one decodes, one adds, one asks the curve for its constants", Box::new(move || {
        let c = share(curve::<K>(i));
        let s1 = c.pts[4].encode(true);
        vec![
            body(move |o| decode::<K>(c, &s1, o)),
            body(move |o| t(o, || hexs(&K::add(&c.proj[1], &c.proj[2]).encode(false)))),
            body(move |o| {
                t(o, || {
                    let g = c.c.get_generator();
                    format!("{},{},{:?}", c.c.identity(), c.c.is_on_curve(&g), c.c.get_order())
                })
            }),
        ]
    }));
    add("build", "two threads build the same curve, and compare it with one built before", Box::new(move || {
        let c = share(curve::<K>(i));
        let f = move || {
            body(move |o| {
                t(o, || {
                    let d = curve::<K>(i);
                    format!("{},{}", d.c == c.c, d.pts[1] == c.pts[1])
                })
            })
        };
        vec![f(), f()]
    }));
    add("last-owner", "two threads own copies of a curve and its points, use them and drop them", Box::new(move || {
        let c = curve::<K>(i);
        let f = |k: usize| {
            let (d, p, q) = (c.c.clone(), c.proj[k].clone(), c.pts[k].clone());
            body(move |o| {
                t(o, || format!("{},{}", d.is_on_curve(&p), hexs(&K::add(&p, &q).encode(true))));
                drop(p);
                drop(d);
                drop(q);
            })
        };
        let v = vec![f(1), f(2)];
        drop(c);
        v
    }));
}

/// Structures that the calls of a pair share, built before the threads start, and only those that are asked for.
#[derive(Default)]
struct Common {
    f: [Option<&'static Force<Fp>>; 5],
    f2: Option<&'static Force<Fp2>>,
    w: [Option<&'static Force<CurveOf<W>>>; 2],
    e: Option<&'static Force<CurveOf<E>>>,
    m: Option<&'static Force<CurveOf<M>>>,
}
const PAIR_MODULI: [&str; 5] = ["13", "19", "17", P25519, "29"];
impl Common {
    fn f(&mut self, i: usize) -> &'static Force<Fp> {
        self.f[i].get_or_insert_with(|| share(field(PAIR_MODULI[i])))
    }
    fn f2(&mut self) -> &'static Force<Fp2> {
        self.f2.get_or_insert_with(|| share(Fp2::new(BigUint::from(7u32))))
    }
    fn w(&mut self, i: usize) -> &'static Force<CurveOf<W>> {
        self.w[i].get_or_insert_with(|| share(curve::<W>(i)))
    }
    fn e(&mut self) -> &'static Force<CurveOf<E>> {
        self.e.get_or_insert_with(|| share(curve::<E>(0)))
    }
    fn m(&mut self) -> &'static Force<CurveOf<M>> {
        self.m.get_or_insert_with(|| share(curve::<M>(0)))
    }
}
/// Elements of two fields: equality, and operations that are refused.
fn across(f: &Fp, g: &Fp, o: &mut String) {
    let (a, b) = (f.elt(big(2)), g.elt(big(2)));
    t(o, || format!("{}{}", a == b, *f == *g));
    t(o, || (&a + &b).to_string());
    t(o, || (&b * &a).to_string());
}
type Call = (&'static str, fn(&mut Common) -> Body);
/// Single calls, of which every pair is a scenario.
static CALLS: &[Call] = &[
    ("root13", |c| {
        let f = c.f(0);
        body(move |o| roots(f, &[2], o))
    }),
    ("root19", |c| {
        let f = c.f(1);
        body(move |o| roots(f, &[3], o))
    }),
    ("root-own", |_| body(|o| roots(&field("29"), &[3], o))),
    ("root17-refused", |c| {
        let f = c.f(2);
        body(move |o| roots(f, &[2], o))
    }),
    ("across-same-size", |c| {
        let (f, g) = (c.f(0), c.f(4));
        body(move |o| across(f, g, o))
    }),
    ("across-sizes", |c| {
        let (f, g) = (c.f(1), c.f(3));
        body(move |o| across(f, g, o))
    }),
    ("inverse13", |c| {
        let f = c.f(0);
        body(move |o| t(o, || (1u32 / &f.elt(big(5))).to_string()))
    }),
    ("quotient-by-zero", |c| {
        let f = c.f(0);
        body(move |o| t(o, || (f.elt(big(2)) / f.zero()).to_string()))
    }),
    ("power", |c| {
        let f = c.f(1);
        body(move |o| t(o, || (&f.elt(big(5)) ^ &BigInt::from(-77)).to_string()))
    }),
    ("numeral", |c| {
        let f = c.f(0);
        body(move |o| {
            for s in ["0x1f", "", "zz"] {
                t(o, || FromFactory::<&str>::from(&**f, s).to_string())
            }
        })
    }),
    ("bytes", |c| {
        let f = c.f(1);
        body(move |o| t(o, || format!("{}{}", hexs(&f.elt(big(-1)).to_bytes_le()), f.from_bytes_be(&[1, 2, 3]).unwrap())))
    }),
    ("show-field", |c| {
        let f = c.f(0);
        body(move |o| t(o, || format!("{}{}{}{}", **f, f.get_modulus(), f.size_bytes(), **f == field("13"))))
    }),
    ("fp2-root", |c| {
        let f = c.f2();
        body(move |o| {
            t(o, || {
                let x = f.from("1,2");
                (&x * &x).sqrt().to_string()
            })
        })
    }),
    ("fp2-inverse", |c| {
        let f = c.f2();
        body(move |o| t(o, || format!("{}{}", 1u32 / &f.from("3,4"), f.from("3,4").is_square())))
    }),
    ("W-decode", |c| {
        let c = c.w(0);
        let s = c.pts[3].encode(true);
        body(move |o| decode::<W>(c, &s, o))
    }),
    ("W-decode-refused", |c| {
        let c = c.w(0);
        body(move |o| {
            for s in [&[][..], &[9], &[2, 200], &[4, 1, 200]] {
                decode::<W>(c, s, o)
            }
        })
    }),
    ("W-across", |c| {
        let (c, d) = (c.w(0), c.w(1));
        body(move |o| {
            t(o, || format!("{}{}", c.pts[1] == d.pts[1], c.c == d.c));
            t(o, || hexs(&W::add(&c.pts[1], &d.pts[1]).encode(true)));
            t(o, || hexs(&W::mul(&c.pts[1], &d.ks[2]).encode(true)));
        })
    }),
    ("W-constants", |c| {
        let c = c.w(0);
        body(move |o| t(o, || format!("{}{}{}{}", c.c, c.c.get_generator(), c.c.get_order(), c.c.identity())))
    }),
    ("W-5P", |c| {
        let c = c.w(0);
        body(move |o| t(o, || hexs(&W::mul(&c.pts[1], &c.ks[3]).encode(false))))
    }),
    ("W-new-point", |c| {
        let c = c.w(0);
        body(move |o| {
            let f = c.c.get_field();
            t(o, || hexs(&c.c.new_point(f.elt(big(2)), f.elt(big(2))).encode(false)));
            t(o, || c.c.is_on_curve(&c.proj[1]).to_string());
        })
    }),
    ("scalars", |c| {
        let c = c.w(1);
        body(move |o| {
            t(o, || format!("{},{}", W::s_bin('/', &c.ks[2], &c.ks[3], 0), hexs(&c.ks[4].to_bytes_be())));
            t(o, || format!("{:?}", W::lr(&c.ks[3], 99)));
        })
    }),
    ("E-decode", |c| {
        let c = c.e();
        let s = c.pts[3].encode(true);
        body(move |o| decode::<E>(c, &s, o))
    }),
    ("E-add", |c| {
        let c = c.e();
        body(move |o| t(o, || hexs(&E::add(&c.proj[1], &c.proj[2]).encode(false))))
    }),
    ("M-decode", |c| {
        let c = c.m();
        let s = c.pts[3].encode(true);
        body(move |o| decode::<M>(c, &s, o))
    }),
    ("M-normalize", |c| {
        let c = c.m();
        body(move |o| {
            t(o, || {
                let mut q = c.proj[1].clone();
                M::normalize(&mut q);
                format!("{}{}", q == c.proj[1], hexs(&q.encode(true)))
            })
        })
    }),
    ("svdw", |c| {
        let c = c.w(0);
        body(move |o| {
            t(o, || {
                let f = c.c.get_field();
                let m = weierstrass::SVDW::new(c.c.clone(), fe(&f, toys_once().svdw));
                hexs(&m.map(&fe(&f, 5)).encode(true))
            })
        })
    }),
    ("ell2", |c| {
        let c = c.m();
        body(move |o| {
            t(o, || {
                let f = c.c.get_field();
                let m = montgomery::Ell2::new(c.c.clone(), fe(&f, toys_once().ell2));
                hexs(&m.map(&fe(&f, 5)).encode(true))
            })
        })
    }),
    ("P256", |_| body(|o| t(o, || hexs(&W::named("P256").unwrap().get_generator().encode(true))))),
    ("25519", |_| body(|o| t(o, || hexs(&E::named("EDWARDS25519").unwrap().identity().encode(true))))),
    ("P384", |_| body(|o| t(o, || hexs(&W::named("P384").unwrap().get_generator().encode(true))))),
    ("P521", |_| body(|o| t(o, || hexs(&W::named("P521").unwrap().get_generator().encode(true))))),
    ("secp256k1", |_| body(|o| t(o, || hexs(&W::named("SECP256K1").unwrap().get_generator().encode(true))))),
    ("bls12381g1", |_| body(|o| t(o, || hexs(&W::named("BLS12381G1").unwrap().get_generator().encode(true))))),
    ("ed448", |_| body(|o| t(o, || hexs(&E::named("EDWARDS448").unwrap().get_generator().encode(true))))),
    ("curve25519", |_| body(|o| t(o, || hexs(&M::named("CURVE25519").unwrap().get_generator().encode(true))))),
    ("curve448", |_| body(|o| t(o, || hexs(&M::named("CURVE448").unwrap().get_generator().encode(true))))),
    ("map25519", |_| body(|o| map_once(|| instances::edwards25519_to_curve25519(), o))),
    ("map448", |_| body(|o| map_once(|| instances::edwards448_to_curve448(), o))),
    ("iso-secp256k1", |_| body(|o| iso_once(|| instances::get_isogeny_secp256k1(), o))),
    ("iso-bls12381g1", |_| body(|o| iso_once(|| instances::get_isogeny_bls12381g1(), o))),
];

/// Builds a rational map, and sends the identities and the generator through it.
fn map_once<R>(new: impl Fn() -> R, o: &mut String)
where
    R: RationalMap<E0 = redox_ecc::edwards::Curve, E1 = montgomery::Curve>,
{
    t(o, || {
        let m = new();
        let (e, d) = (m.domain(), m.codomain());
        format!(
            "{}{}{}",
            hexs(&m.push(e.identity()).encode(true)),
            hexs(&m.pull(d.identity()).encode(true)),
            hexs(&m.push(e.get_generator()).encode(true))
        )
    })
}
/// Builds an isogeny, and sends the identity and the generator through it.
fn iso_once<R>(new: impl Fn() -> R, o: &mut String)
where
    R: Isogeny<E0 = weierstrass::Curve, E1 = weierstrass::Curve>,
{
    t(o, || {
        let m = new();
        let e = m.domain();
        format!("{}{}", hexs(&m.push(e.identity()).encode(true)), hexs(&m.push(e.get_generator()).encode(true)))
    })
}

fn pairs(v: &mut Vec<Scen>) {
    for i in 0..CALLS.len() {
        for j in i..CALLS.len() {
            v.push(Scen {
                name: format!("pair/{}+{}", CALLS[i].0, CALLS[j].0),
                what: "two threads make one short call each, over structures built before, that have been used for nothing else",
                make: Box::new(move || {
                    let mut c = Common::default();
                    let v = vec![CALLS[i].1(&mut c), CALLS[j].1(&mut c)];
                    after(Want::Alone(0), CALLS[i].1(&mut c));
                    after(Want::Alone(1), CALLS[j].1(&mut c));
                    v
                }),
            });
        }
    }
}

type Add<'a> = &'a mut dyn FnMut(String, Box<dyn Fn() -> Vec<Body>>);
fn built_curves<K: Kind + 'static>(add: Add, i: usize, j: usize) {
    let make = move || {
        let (a, b) = (slot::<CurveOf<K>>(), slot::<CurveOf<K>>());
        let f = |s: Slot<CurveOf<K>>, i: usize| {
            body(move |o| {
                let c = curve::<K>(i);
                o.push_str(&hexs(&c.pts[1].encode(true)));
                s.set(c);
            })
        };
        let (same, order) = (i == j, toy::<K>(i).r == toy::<K>(j).r);
        after(
            Want::Text(format!("{same}{same}{same}{order}{order}")),
            body(move |o| {
                let (c, d) = (a.get(), b.get());
                o.push_str(&format!("{}{}", c.c == d.c, c.pts[1] == d.pts[1]));
                o.push_str(&format!("{}", !yields(|| hexs(&K::add(&c.pts[1], &d.pts[2]).encode(true))).is_empty()));
                o.push_str(&format!("{}", !yields(|| hexs(&K::mul(&c.pts[1], &d.ks[2]).encode(true))).is_empty()));
                o.push_str(&format!("{}", !yields(|| K::s_bin('+', &c.ks[1], &d.ks[2], 0).to_string()).is_empty()));
            }),
        );
        vec![f(a, i), f(b, j)]
    };
    add(format!("{}{i}+{}{j}", K::NAME, K::NAME), Box::new(make));
}
/// Two threads build something each; afterwards both things are the ones that their parameters describe.
fn built(v: &mut Vec<Scen>) {
    let mut add = |n: String, make: Box<dyn Fn() -> Vec<Body>>| {
        v.push(Scen { name: format!("built/{n}"), what: "two threads build one structure each, and values of it; afterwards these are compared and combined", make })
    };
    for (p, q) in [("13", "29"), ("13", "13"), ("19", "13"), (P25519, "13"), (P25519, P25519)] {
        let make = move || {
            let (a, b) = (slot::<(Fp, Elt)>(), slot::<(Fp, Elt)>());
            let f = |s: Slot<(Fp, Elt)>, p: &'static str| {
                body(move |o| {
                    let f = field(p);
                    let x = f.elt(big(5));
                    o.push_str(&x.to_string());
                    s.set((f, x));
                })
            };
            let same = p == q;
            let sum = if same { "10" } else { "" };
            after(
                Want::Text(format!("{same}{same}{same}|{sum}|{sum}")),
                body(move |o| {
                    let ((f, x), (g, y)) = (a.get(), b.get());
                    o.push_str(&format!("{}{}{}|", f == g, x == y, *y == f.elt(big(5))));
                    o.push_str(&yields(|| (x + y).to_string()));
                    o.push('|');
                    o.push_str(&yields(|| (y + x).to_string()));
                }),
            );
            vec![f(a, p), f(b, q)]
        };
        add(format!("fields/{}+{}", &p[..2], &q[..2]), Box::new(make));
    }
    for j in 0..2 {
        built_curves::<W>(&mut add, 0, j);
        built_curves::<E>(&mut add, 0, j);
        built_curves::<M>(&mut add, 0, j);
    }
}
/// The text, or nothing when it is refused.
fn yields(f: impl FnOnce() -> String) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_default()
}

pub fn all() -> Vec<Scen> {
    let mut v: Vec<Scen> = vec![];
    for (p, cls) in [("13", "5 mod 8"), ("19", "3 mod 4"), (P25519, "5 mod 8, 255 bits"), ("5", "5"), ("7", "7")] {
        let nm = |s: &str| format!("fp/{}/{s}", if p.len() > 4 { "2^255-19" } else { p });
        let _ = cls;
        v.push(Scen {
            name: nm("roots-cold"),
            what: "two threads compute the first roots in a shared field",
            make: Box::new(move || {
                let f = share(field(p));
                vec![body(move |o| roots(f, &[2], o)), body(move |o| roots(f, &[3], o))]
            }),
        });
        v.push(Scen {
            name: nm("roots-warm"),
            what: "two threads compute roots in a shared field that has computed roots before",
            make: Box::new(move || {
                let f = share(field(p));
                f.elt(big(4)).sqrt();
                vec![body(move |o| roots(f, &[2, 4], o)), body(move |o| roots(f, &[3], o))]
            }),
        });
        v.push(Scen {
            name: nm("roots-twice"),
            what: "two threads compute two roots each in a shared field",
            make: Box::new(move || {
                let f = share(field(p));
                vec![body(move |o| roots(f, &[1, 2], o)), body(move |o| roots(f, &[3, 4], o))]
            }),
        });
        v.push(Scen {
            name: nm("roots-three"),
            what: "three threads compute the first roots in a shared field",
            make: Box::new(move || {
                let f = share(field(p));
                vec![body(move |o| roots(f, &[2], o)), body(move |o| roots(f, &[3], o)), body(move |o| roots(f, &[4], o))]
            }),
        });
        v.push(Scen {
            name: nm("roots-copies"),
            what: "two threads compute roots in copies of one field, and drop them",
            make: Box::new(move || {
                let f = field(p);
                let g = Force(f.clone());
                let h = Force(f.clone());
                drop(f);
                vec![
                    body(move |o| {
                        let g = g.take();
                        roots(&g, &[2], o)
                    }),
                    body(move |o| {
                        let h = h.take();
                        roots(&h, &[3], o)
                    }),
                ]
            }),
        });
        v.push(Scen {
            name: nm("roots-element"),
            what: "two threads compute the root of the same element",
            make: Box::new(move || {
                let e = share(field(p).elt(big(4)));
                let f = move || body(move |o| t(o, || format!("{},{}", e.sqrt(), e.is_square())));
                vec![f(), f()]
            }),
        });
        v.push(Scen {
            name: nm("arithmetic"),
            what: "two threads use the same two elements in the operations of the field",
            make: Box::new(move || {
                let f = share(field(p));
                let a = share(f.elt(big(3)));
                let b = share(f.elt(big(-2)));
                vec![body(move |o| arith(f, a, b, o)), body(move |o| arith(f, b, a, o))]
            }),
        });
        v.push(Scen {
            name: nm("roots-arithmetic"),
            what: "one thread computes roots, one computes in the same field",
            make: Box::new(move || {
                let f = share(field(p));
                let a = share(f.elt(big(3)));
                let b = share(f.elt(big(2)));
                vec![body(move |o| roots(f, &[2, 3], o)), body(move |o| arith(f, a, b, o))]
            }),
        });
        v.push(Scen {
            name: nm("display"),
            what: "two threads compute roots and print the field and its elements",
            make: Box::new(move || {
                let f = share(field(p));
                let g = move |x: i64| {
                    body(move |o| {
                        t(o, || format!("{}{}{}", **f, f.elt(big(x)), f.get_modulus()));
                        roots(f, &[x], o);
                        t(o, || format!("{}{}", **f == field(p), f.elt(big(x)) == field(p).elt(big(x))));
                    })
                };
                vec![g(1), g(2)]
            }),
        });
        v.push(Scen {
            name: nm("own-fields"),
            what: "two threads compute roots in separate fields of the same modulus, built by each thread",
            make: Box::new(move || vec![body(move |o| roots(&field(p), &[2], o)), body(move |o| roots(&field(p), &[3], o))]),
        });
    }
    for p in ["17", "41"] {
        v.push(Scen {
            name: format!("fp/{p}/refused"),
            what: "roots modulo a prime 1 mod 8 are refused in one thread while another one works in the field",
            make: Box::new(move || {
                let f = share(field(p));
                vec![
                    body(move |o| roots(f, &[2, 3], o)),
                    body(move |o| {
                        t(o, || format!("{}{}", f.elt(big(2)).is_square(), f.elt(big(3)).is_square()));
                        roots(f, &[4], o);
                    }),
                ]
            }),
        });
    }
    v.push(Scen {
        name: "fp/two-fields-crossed".into(),
        what: "two threads compute roots in two shared fields, in opposite orders",
        make: Box::new(|| {
            let f = share(field("13"));
            let g = share(field("19"));
            vec![
                body(move |o| {
                    roots(f, &[2], o);
                    roots(g, &[2], o);
                }),
                body(move |o| {
                    roots(g, &[3], o);
                    roots(f, &[3], o);
                }),
            ]
        }),
    });
    v.push(Scen {
        name: "fp/two-classes".into(),
        what: "three threads compute roots in fields of different classes",
        make: Box::new(|| {
            let f = share(field("13"));
            let g = share(field("19"));
            let h = share(field("29"));
            vec![body(move |o| roots(f, &[2, 4], o)), body(move |o| roots(g, &[3, 4], o)), body(move |o| roots(h, &[3, 4], o))]
        }),
    });
    for p in [7u32, 11] {
        let el = |f: &Fp2, s: &str| f.from(s);
        v.push(Scen {
            name: format!("fp2/{p}/roots"),
            what: "two threads compute the first roots in a shared quadratic field",
            make: Box::new(move || {
                let f = Fp2::new(BigUint::from(p));
                let a = share(el(&f, "1,2"));
                let b = share(el(&f, "3,1"));
                let g = move |x: &'static Force<Fp2Elt>| body(move |o| t(o, || format!("{},{}", (&**x * &**x).sqrt(), x.is_square())));
                vec![g(a), g(b)]
            }),
        });
        v.push(Scen {
            name: format!("fp2/{p}/arithmetic"),
            what: "two threads use the same elements of a quadratic field; one also computes a root",
            make: Box::new(move || {
                let f = share(Fp2::new(BigUint::from(p)));
                let a = share(el(f, "1,2"));
                let b = share(el(f, "3,1"));
                vec![
                    body(move |o| arith2(f, a, b, o)),
                    body(move |o| {
                        arith2(f, b, a, o);
                        t(o, || (&**a * &**a).sqrt().to_string())
                    }),
                ]
            }),
        });
        v.push(Scen {
            name: format!("fp2/{p}/copies"),
            what: "two threads own elements of one quadratic field, use them and drop them",
            make: Box::new(move || {
                let f = Fp2::new(BigUint::from(p));
                let g = |s: &str| {
                    let a = el(&f, s);
                    body(move |o| {
                        t(o, || (&a * &a).sqrt().to_string());
                        drop(a)
                    })
                };
                vec![g("1,2"), g("2,3")]
            }),
        });
    }
    for i in 0..3 {
        per_model::<W>(&mut v, i);
    }
    for i in 0..2 {
        per_model::<E>(&mut v, i);
        per_model::<M>(&mut v, i);
    }
    // maps
    v.push(Scen {
        name: "maps/sswu".into(),
        what: "two threads use one simplified SWU map",
        make: Box::new(|| {
            let c = curve::<W>(0).c;
            let f = c.get_field();
            let m = share(weierstrass::SSWU::new(c, fe(&f, toys_once().sswu.1)));
            let f = share(f);
            let g = move |u: u64| body(move |o| t(o, || hexs(&m.map(&fe(f, u)).encode(false))));
            vec![g(3), g(4)]
        }),
    });
    v.push(Scen {
        name: "maps/svdw".into(),
        what: "two threads use one Shallue-van de Woestijne map",
        make: Box::new(|| {
            let c = curve::<W>(0).c;
            let f = c.get_field();
            let m = share(weierstrass::SVDW::new(c, fe(&f, toys_once().svdw)));
            let f = share(f);
            let g = move |u: u64| body(move |o| t(o, || hexs(&m.map(&fe(f, u)).encode(false))));
            vec![g(3), g(4)]
        }),
    });
    v.push(Scen {
        name: "maps/ell2".into(),
        what: "two threads use one Elligator 2 map",
        make: Box::new(|| {
            let c = curve::<M>(0).c;
            let f = c.get_field();
            let m = share(montgomery::Ell2::new(c, fe(&f, toys_once().ell2)));
            let f = share(f);
            let g = move |u: u64| body(move |o| t(o, || hexs(&m.map(&fe(f, u)).encode(false))));
            vec![g(3), g(4)]
        }),
    });
    v.push(Scen {
        name: "maps/build-and-decode".into(),
        what: "one thread builds maps on a curve while others decode on it and map to it",
        make: Box::new(|| {
            let c = share(curve::<W>(0));
            let f = share(c.c.get_field());
            let s = c.pts[3].encode(true);
            let z = toys_once().svdw;
            let zs = toys_once().sswu.1;
            vec![
                body(move |o| {
                    t(o, || {
                        let m = weierstrass::SVDW::new(c.c.clone(), fe(f, z));
                        hexs(&m.map(&fe(f, 5)).encode(true))
                    })
                }),
                body(move |o| decode::<W>(c, &s, o)),
                body(move |o| {
                    t(o, || {
                        let m = weierstrass::SSWU::new(c.c.clone(), fe(f, zs));
                        hexs(&m.map(&fe(f, 5)).encode(true))
                    })
                }),
            ]
        }),
    });
    // a map built outside the threads, that the threads use for the first time
    v.push(Scen {
        name: "maps/25519".into(),
        what: "two threads use the map between edwards25519 and curve25519, in both directions",
        make: Box::new(|| {
            let m = share(instances::edwards25519_to_curve25519());
            let (p, q) = (share(m.domain().get_generator()), share(m.codomain().get_generator()));
            vec![
                body(move |o| t(o, || hexs(&m.push((*p).clone()).encode(false)))),
                body(move |o| t(o, || hexs(&m.pull((*q).clone()).encode(false)))),
            ]
        }),
    });
    v.push(Scen {
        name: "maps/iso-secp256k1".into(),
        what: "two threads use the isogeny to secp256k1",
        make: Box::new(|| {
            let m = share(instances::get_isogeny_secp256k1());
            let p = share(m.domain().get_generator());
            let g = move || body(move |o| t(o, || hexs(&m.push((*p).clone()).encode(false))));
            vec![g(), g()]
        }),
    });
    // named curves
    fn named<K: Kind>(n: &'static str) -> Body {
        body(move |o| {
            t(o, || {
                let c = K::named(n).unwrap();
                let g = c.get_generator();
                format!("{},{}", c.is_on_curve(&g), hexs(&K::add(&g, &g).encode(false)))
            })
        })
    }
    v.push(Scen { name: "named/p256".into(), what: "two threads build P-256", make: Box::new(|| vec![named::<W>("P256"), named::<W>("P256")]) });
    v.push(Scen { name: "named/three".into(), what: "three threads build different named curves", make: Box::new(|| vec![named::<W>("SECP256K1"), named::<E>("EDWARDS25519"), named::<M>("CURVE448")]) });
    v.push(Scen { name: "named/25519".into(), what: "two threads build curves over one field", make: Box::new(|| vec![named::<M>("CURVE25519"), named::<E>("EDWARDS25519")]) });
    v.push(Scen {
        name: "named/p256-decode".into(),
        what: "two threads decode points of one P-256 object",
        make: Box::new(|| {
            let c = share(W::named("P256").unwrap());
            let s = share(c.get_generator().encode(true));
            let f = move || body(move |o| t(o, || c.decode(s).map(|q| hexs(&q.encode(false))).unwrap_or("Err".into())));
            vec![f(), f()]
        }),
    });
    v.push(Scen {
        name: "named/25519-decode".into(),
        what: "two threads decode points of one curve25519 object, the field of which takes the longer root computation",
        make: Box::new(|| {
            let c = share(M::named("CURVE25519").unwrap());
            let s = share(c.get_generator().encode(true));
            let f = move || body(move |o| t(o, || c.decode(s).map(|q| hexs(&q.encode(false))).unwrap_or("Err".into())));
            vec![f(), f()]
        }),
    });
    pairs(&mut v);
    built(&mut v);
    v
}
