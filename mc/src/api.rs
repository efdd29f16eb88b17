//! A uniform view of the public API of the three curve models.

use num_bigint::{BigInt, BigUint};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EcScalar, EllipticCurve, Encode};
use redox_ecc::instances::{self, GetCurve};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::fmt::Display;

pub use redox_ecc::field::{CMov, Field, FromFactoryStr, Sgn0, Sqrt};
pub use redox_ecc::ops::{Deserialize, FromFactory, Serialize};
pub type Elt = FpElt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Model {
    W,
    E,
    M,
}

/// The four ownership forms of a binary operation.
#[macro_export]
macro_rules! forms {
    ($a:expr, $op:tt, $b:expr) => {
        [&$a $op &$b, &$a $op $b.clone(), $a.clone() $op &$b, $a.clone() $op $b.clone()]
    };
}

/// One ownership form of a binary operation.
#[macro_export]
macro_rules! form {
    ($f:expr, $a:expr, $op:tt, $b:expr) => {
        match $f {
            0 => $a $op $b,
            1 => $a $op $b.clone(),
            2 => $a.clone() $op $b,
            _ => $a.clone() $op $b.clone(),
        }
    };
}

#[derive(Clone)]
pub struct Text {
    pub p: String,
    pub a: String,
    pub b: String,
    pub s: String,
    pub r: String,
    pub h: String,
    pub gx: String,
    pub gy: String,
}

pub trait Kind: 'static {
    const MODEL: Model;
    const NAME: &'static str;
    type C: EllipticCurve<F = Fp, Scalar = Self::S, Point = Self::P> + Decode<Deser = Self::P> + Clone + PartialEq + Display;
    type P: EcPoint<Self::S> + Encode + Clone + Eq + Display;
    type S: EcScalar + Serialize + Clone + Display;
    fn build(t: &Text) -> Self::C;
    fn named(name: &str) -> Option<Self::C>;
    fn add(a: &Self::P, b: &Self::P) -> Self::P;
    fn sub(a: &Self::P, b: &Self::P) -> Self::P;
    fn neg(a: &Self::P) -> Self::P;
    fn mul(a: &Self::P, k: &Self::S) -> Self::P;
    fn add4(a: &Self::P, b: &Self::P) -> [Self::P; 4];
    fn sub4(a: &Self::P, b: &Self::P) -> [Self::P; 4];
    fn neg2(a: &Self::P) -> [Self::P; 2];
    fn mul7(a: &Self::P, k: &Self::S) -> [Self::P; 7];
    /// One form (0..4) of + or -.
    fn bin(op: char, a: &Self::P, b: &Self::P, f: usize) -> Self::P;
    /// One form (0..7) of the product with a scalar.
    fn mul_f(a: &Self::P, k: &Self::S, f: usize) -> Self::P;
    fn s_bin(op: char, a: &Self::S, b: &Self::S, f: usize) -> Self::S;
    fn normalize(a: &mut Self::P);
    fn two_torsion(a: &Self::P) -> Option<bool>;
    fn s_new(k: BigInt, r: &BigUint) -> Self::S;
    fn s_add(a: &Self::S, b: &Self::S) -> [Self::S; 4];
    fn s_sub(a: &Self::S, b: &Self::S) -> [Self::S; 4];
    fn s_mul(a: &Self::S, b: &Self::S) -> [Self::S; 4];
    fn s_div(a: &Self::S, b: &Self::S) -> [Self::S; 4];
    fn s_neg(a: &Self::S) -> [Self::S; 2];
    fn s_inv(a: &Self::S) -> Self::S;
    fn s_inv_of(n: u32, a: &Self::S) -> Self::S;
    /// Scalars of the Montgomery model have no equality.
    fn s_eq(a: &Self::S, b: &Self::S) -> Option<bool>;
    /// The bits produced by the iterator, at most `max` of them.
    fn lr(a: &Self::S, max: usize) -> Vec<bool>;
    fn rl(a: &Self::S, max: usize) -> Vec<bool>;
}

pub struct W;
pub struct E;
pub struct M;

/// The parameters of a curve must be static: equal texts are kept once.
fn leak(s: &str) -> &'static str {
    use std::collections::HashSet;
    use std::sync::Mutex;
    static KEPT: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut k = KEPT.lock().unwrap();
    let k = k.get_or_insert_with(HashSet::new);
    if let Some(t) = k.get(s) {
        return t;
    }
    let t: &'static str = Box::leak(s.to_string().into_boxed_str());
    k.insert(t);
    t
}

macro_rules! ops {
    ($m:ident) => {
        type C = $m::Curve;
        type P = $m::Point;
        type S = $m::Scalar;
        fn add(a: &Self::P, b: &Self::P) -> Self::P {
            a + b
        }
        fn sub(a: &Self::P, b: &Self::P) -> Self::P {
            a - b
        }
        fn neg(a: &Self::P) -> Self::P {
            -a
        }
        fn mul(a: &Self::P, k: &Self::S) -> Self::P {
            a * k
        }
        fn add4(a: &Self::P, b: &Self::P) -> [Self::P; 4] {
            forms!(*a, +, *b)
        }
        fn sub4(a: &Self::P, b: &Self::P) -> [Self::P; 4] {
            forms!(*a, -, *b)
        }
        fn neg2(a: &Self::P) -> [Self::P; 2] {
            [-a, -a.clone()]
        }
        fn mul7(a: &Self::P, k: &Self::S) -> [Self::P; 7] {
            [a * k, a * k.clone(), a.clone() * k, a.clone() * k.clone(), k * a, k.clone() * a, k.clone() * a.clone()]
        }
        fn bin(op: char, a: &Self::P, b: &Self::P, f: usize) -> Self::P {
            match op {
                '+' => form!(f, a, +, b),
                _ => form!(f, a, -, b),
            }
        }
        fn mul_f(a: &Self::P, k: &Self::S, f: usize) -> Self::P {
            match f {
                0 => a * k,
                1 => a * k.clone(),
                2 => a.clone() * k,
                3 => a.clone() * k.clone(),
                4 => k * a,
                5 => k.clone() * a,
                _ => k.clone() * a.clone(),
            }
        }
        fn s_bin(op: char, a: &Self::S, b: &Self::S, f: usize) -> Self::S {
            match op {
                '+' => form!(f, a, +, b),
                '-' => form!(f, a, -, b),
                '*' => form!(f, a, *, b),
                _ => form!(f, a, /, b),
            }
        }
        fn normalize(a: &mut Self::P) {
            a.normalize()
        }
        fn s_new(k: BigInt, r: &BigUint) -> Self::S {
            $m::Scalar::new(k, r)
        }
        fn s_add(a: &Self::S, b: &Self::S) -> [Self::S; 4] {
            forms!(*a, +, *b)
        }
        fn s_sub(a: &Self::S, b: &Self::S) -> [Self::S; 4] {
            forms!(*a, -, *b)
        }
        fn s_mul(a: &Self::S, b: &Self::S) -> [Self::S; 4] {
            forms!(*a, *, *b)
        }
        fn s_div(a: &Self::S, b: &Self::S) -> [Self::S; 4] {
            forms!(*a, /, *b)
        }
        fn s_neg(a: &Self::S) -> [Self::S; 2] {
            [-a, -a.clone()]
        }
        fn s_inv_of(n: u32, a: &Self::S) -> Self::S {
            n / a
        }
        fn s_inv(a: &Self::S) -> Self::S {
            1u32 / a
        }
        fn lr(a: &Self::S, max: usize) -> Vec<bool> {
            a.iter_lr().take(max).collect()
        }
        fn rl(a: &Self::S, max: usize) -> Vec<bool> {
            a.iter_rl().take(max).collect()
        }
    };
}

impl Kind for W {
    fn s_eq(a: &Self::S, b: &Self::S) -> Option<bool> {
        Some(a == b)
    }
    const MODEL: Model = Model::W;
    const NAME: &'static str = "weierstrass";
    ops!(weierstrass);
    fn build(t: &Text) -> Self::C {
        weierstrass::Curve::from(&weierstrass::Params {
            name: "toy",
            p: leak(&t.p),
            a: leak(&t.a),
            b: leak(&t.b),
            r: leak(&t.r),
            h: leak(&t.h),
            gx: leak(&t.gx),
            gy: leak(&t.gy),
        })
    }
    fn named(name: &str) -> Option<Self::C> {
        Some(match name {
            "P256" => instances::P256.get(),
            "P384" => instances::P384.get(),
            "P521" => instances::P521.get(),
            "SECP256K1" => instances::SECP256K1.get(),
            "SECP256K1_3ISO" => instances::SECP256K1_3ISO.get(),
            "BLS12381G1" => instances::BLS12381G1.get(),
            "BLS12381G1_11ISO" => instances::BLS12381G1_11ISO.get(),
            _ => return None,
        })
    }
    fn two_torsion(_: &Self::P) -> Option<bool> {
        None
    }
}
impl Kind for E {
    fn s_eq(a: &Self::S, b: &Self::S) -> Option<bool> {
        Some(a == b)
    }
    const MODEL: Model = Model::E;
    const NAME: &'static str = "edwards";
    ops!(edwards);
    fn build(t: &Text) -> Self::C {
        edwards::Curve::from(&edwards::Params {
            name: "toy",
            p: leak(&t.p),
            a: leak(&t.a),
            d: leak(&t.b),
            r: leak(&t.r),
            h: leak(&t.h),
            gx: leak(&t.gx),
            gy: leak(&t.gy),
        })
    }
    fn named(name: &str) -> Option<Self::C> {
        Some(match name {
            "EDWARDS25519" => instances::EDWARDS25519.get(),
            "EDWARDS448" => instances::EDWARDS448.get(),
            _ => return None,
        })
    }
    fn two_torsion(_: &Self::P) -> Option<bool> {
        None
    }
}
impl Kind for M {
    fn s_eq(_: &Self::S, _: &Self::S) -> Option<bool> {
        None
    }
    const MODEL: Model = Model::M;
    const NAME: &'static str = "montgomery";
    ops!(montgomery);
    fn build(t: &Text) -> Self::C {
        montgomery::Curve::from(&montgomery::Params {
            name: "toy",
            p: leak(&t.p),
            a: leak(&t.a),
            b: leak(&t.b),
            s: leak(&t.s),
            r: leak(&t.r),
            h: leak(&t.h),
            gx: leak(&t.gx),
            gy: leak(&t.gy),
        })
    }
    fn named(name: &str) -> Option<Self::C> {
        Some(match name {
            "CURVE25519" => instances::CURVE25519.get(),
            "CURVE448" => instances::CURVE448.get(),
            _ => return None,
        })
    }
    fn two_torsion(a: &Self::P) -> Option<bool> {
        Some(a.is_two_torsion())
    }
}

pub fn fp(p: u64) -> Fp {
    Fp::new(BigUint::from(p))
}
pub fn fe(f: &Fp, n: u64) -> Elt {
    f.elt(BigInt::from(n))
}
