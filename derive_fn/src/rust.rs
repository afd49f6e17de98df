//! The Rust types of generated bindings, to and from model values.

use ethabi::{Address, Hash, Uint};
use mc::model::{Ty, Val};

pub trait Rust: Sized {
    fn of_val(v: &Val) -> Self;
    fn to_val(self, t: &Ty) -> Val;
}

#[allow(dead_code)]
pub fn arg<T: Rust>(v: &[Val], i: usize) -> T {
    T::of_val(&v[i])
}

fn no<T>(v: &Val) -> T {
    panic!("harness: unexpected value {:?}", v)
}

impl Rust for Address {
    fn of_val(v: &Val) -> Self {
        match v {
            Val::Addr(a) => Address::from(*a),
            v => no(v),
        }
    }
    fn to_val(self, _: &Ty) -> Val {
        Val::Addr(self.0)
    }
}
impl Rust for Hash {
    fn of_val(v: &Val) -> Self {
        match v {
            Val::FBytes(b) => Hash::from_slice(b),
            v => no(v),
        }
    }
    fn to_val(self, _: &Ty) -> Val {
        Val::FBytes(self.0.to_vec())
    }
}
impl Rust for Uint {
    fn of_val(v: &Val) -> Self {
        match v {
            Val::Uint(w) | Val::Int(w) => Uint::from_big_endian(w),
            v => no(v),
        }
    }
    fn to_val(self, t: &Ty) -> Val {
        let mut w = [0; 32];
        self.to_big_endian(&mut w);
        match t {
            Ty::Int(_) => Val::Int(w),
            _ => Val::Uint(w),
        }
    }
}
impl Rust for bool {
    fn of_val(v: &Val) -> Self {
        match v {
            Val::Bool(b) => *b,
            v => no(v),
        }
    }
    fn to_val(self, _: &Ty) -> Val {
        Val::Bool(self)
    }
}
impl Rust for String {
    fn of_val(v: &Val) -> Self {
        match v {
            Val::Str(s) => s.clone(),
            v => no(v),
        }
    }
    fn to_val(self, _: &Ty) -> Val {
        Val::Str(self)
    }
}
impl Rust for Vec<u8> {
    fn of_val(v: &Val) -> Self {
        match v {
            Val::Bytes(b) => b.clone(),
            v => no(v),
        }
    }
    fn to_val(self, _: &Ty) -> Val {
        Val::Bytes(self)
    }
}
impl<const N: usize> Rust for [u8; N] {
    fn of_val(v: &Val) -> Self {
        match v {
            Val::FBytes(b) => {
                let mut r = [0; N];
                r.copy_from_slice(b);
                r
            }
            v => no(v),
        }
    }
    fn to_val(self, _: &Ty) -> Val {
        Val::FBytes(self.to_vec())
    }
}
impl<T: Rust> Rust for Vec<T> {
    fn of_val(v: &Val) -> Self {
        match v {
            Val::Arr(x) => x.iter().map(T::of_val).collect(),
            v => no(v),
        }
    }
    fn to_val(self, t: &Ty) -> Val {
        match t {
            Ty::Arr(t) => Val::Arr(self.into_iter().map(|x| x.to_val(t)).collect()),
            _ => panic!("harness: {}", t.name()),
        }
    }
}
impl<T: Rust, const N: usize> Rust for [T; N] {
    fn of_val(v: &Val) -> Self {
        match v {
            Val::FArr(x) => {
                assert_eq!(x.len(), N);
                let mut it = x.iter();
                [(); N].map(|_| T::of_val(it.next().unwrap()))
            }
            v => no(v),
        }
    }
    fn to_val(self, t: &Ty) -> Val {
        match t {
            Ty::FArr(t, _) => Val::FArr(Vec::from(self).into_iter().map(|x| x.to_val(t)).collect()),
            _ => panic!("harness: {}", t.name()),
        }
    }
}
