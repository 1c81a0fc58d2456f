// Stand-ins for the standard library and the dependencies. Everything in this module is ASSUMED:
// the contracts below are the trusted base of every proof (listed in the evidence).
verus! {
global size_of usize == 8;
pub mod dep {
    use vstd::prelude::*;

    pub use ext::*;

    /// stands for the type of a field that the verifier does not take: no operation, no property
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Unmodelled<T> { x: ::core::marker::PhantomData<T> }
    impl<T> Default for Unmodelled<T> {
        #[verifier::external_body]
        fn default() -> (r: Self) { unimplemented!() }
    }

    #[verifier::external_body]
    pub fn f64_mul(a: f64, b: f64) -> (r: f64) ensures r == fmul(a, b) { a * b }
    #[verifier::external_body]
    pub fn f64_div(a: f64, b: f64) -> (r: f64) ensures r == fdiv(a, b) { a / b }
    #[verifier::external_body]
    pub fn f64_add(a: f64, b: f64) -> (r: f64) ensures r == fadd(a, b) { a + b }
    #[verifier::external_body]
    pub fn f64_sub(a: f64, b: f64) -> (r: f64) ensures r == fsub(a, b) { a - b }
    #[verifier::external_body]
    pub fn f64_neg(a: f64) -> (r: f64) ensures r == fneg(a) { -a }
    pub trait ToF64: Sized {
        spec fn sf(&self) -> f64;
        fn tof(self) -> (r: f64) ensures r == self.sf();
    }
    impl ToF64 for i64 {
        open spec fn sf(&self) -> f64 { i2f(*self as int) }
        #[verifier::external_body]
        fn tof(self) -> (r: f64) { self as f64 }
    }
    impl ToF64 for i32 {
        open spec fn sf(&self) -> f64 { i2f(*self as int) }
        #[verifier::external_body]
        fn tof(self) -> (r: f64) { self as f64 }
    }
    pub fn f64_from<T: ToF64>(x: T) -> (r: f64) ensures r == x.sf() { x.tof() }

    pub trait MinMax: Sized + Copy {
        spec fn le(&self, o: &Self) -> bool;
        fn vp_le(&self, o: &Self) -> (r: bool) ensures r == self.le(o);
    }
    impl MinMax for i64 { open spec fn le(&self, o: &i64) -> bool { *self <= *o } fn vp_le(&self, o: &i64) -> (r: bool) { *self <= *o } }
    impl MinMax for i32 { open spec fn le(&self, o: &i32) -> bool { *self <= *o } fn vp_le(&self, o: &i32) -> (r: bool) { *self <= *o } }
    impl MinMax for u64 { open spec fn le(&self, o: &u64) -> bool { *self <= *o } fn vp_le(&self, o: &u64) -> (r: bool) { *self <= *o } }
    impl MinMax for u32 { open spec fn le(&self, o: &u32) -> bool { *self <= *o } fn vp_le(&self, o: &u32) -> (r: bool) { *self <= *o } }
    impl MinMax for usize { open spec fn le(&self, o: &usize) -> bool { *self <= *o } fn vp_le(&self, o: &usize) -> (r: bool) { *self <= *o } }
    pub fn vp_min<T: MinMax>(a: T, b: T) -> (r: T) ensures r == (if a.le(&b) { a } else { b }) { if a.vp_le(&b) { a } else { b } }
    pub fn vp_max<T: MinMax>(a: T, b: T) -> (r: T) ensures r == (if a.le(&b) { b } else { a }) { if a.vp_le(&b) { b } else { a } }
    pub assume_specification<T, E, U>[ Result::<T, E>::and::<U> ](a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>)
        ensures r == (match a { Ok(_) => b, Err(e) => Err::<U, E>(e) });

    // ------------------------------------------------------------------ integer methods
    pub assume_specification<T, U>[ Option::<T>::zip::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
        ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
    pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](a: Option<&'a T>) -> (r: Option<T>)
        ensures r == (match a { Some(x) => Some(*x), None => None });
    pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
        ensures r == (if a is Some { a } else { b });
    pub assume_specification<T, U>[ Option::<T>::and::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<U>)
        ensures r == (if a is Some { b } else { None });
    pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
        ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
    pub assume_specification<T>[ Option::<Option<T>>::flatten ](a: Option<Option<T>>) -> (r: Option<T>)
        ensures r == (match a { Some(x) => x, None => None });
    pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, v: T) -> (r: Option<T>)
        ensures r == *old(a), *final(a) == Some(v);
    pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](a: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
        ensures r == (match a { Some(Ok(x)) => Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
    pub assume_specification<T, E>[ Result::<Option<T>, E>::transpose ](a: Result<Option<T>, E>) -> (r: Option<Result<T, E>>)
        ensures r == (match a { Ok(Some(x)) => Some(Ok::<T, E>(x)), Ok(None) => None, Err(e) => Some(Err(e)) });
    pub assume_specification<T, E, F>[ Result::<T, E>::or::<F> ](a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>)
        ensures r == (match a { Ok(x) => Ok::<T, F>(x), Err(_) => b });
    pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](a: Result<T, E>, b: T) -> (r: T)
        ensures r == (match a { Ok(x) => x, Err(_) => b });
    pub assume_specification<T>[ bool::then_some::<T> ](a: bool, x: T) -> (r: Option<T>)
        ensures r == (if a { Some(x) } else { None });
    pub assume_specification<T>[ core::mem::replace::<T> ](a: &mut T, v: T) -> (r: T)
        ensures r == *old(a), *final(a) == v;
    pub assume_specification<T>[ <[T]>::split_last ](a: &[T]) -> (r: Option<(&T, &[T])>)
        ensures match r { Some(x) => a@.len() > 0 && *x.0 == a@.last() && x.1@ == a@.drop_last(), None => a@.len() == 0 };
    pub assume_specification<T>[ <[T]>::swap ](a: &mut [T], i: usize, j: usize)
        requires i < old(a)@.len(), j < old(a)@.len(),
        ensures final(a)@ == old(a)@.update(i as int, old(a)@[j as int]).update(j as int, old(a)@[i as int]);
    pub assume_specification[ <u64>::div_ceil ](a: u64, b: u64) -> (r: u64)
        requires b != 0,
        ensures r as int == (a as int + b as int - 1) / (b as int);
    pub assume_specification[ <usize>::div_ceil ](a: usize, b: usize) -> (r: usize)
        requires b != 0,
        ensures r as int == (a as int + b as int - 1) / (b as int);
    pub assume_specification[ <i64>::saturating_add ](a: i64, b: i64) -> (r: i64)
        ensures r == (if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b });
    pub assume_specification[ <i64>::saturating_sub ](a: i64, b: i64) -> (r: i64)
        ensures r == (if a - b > i64::MAX { i64::MAX as int } else if a - b < i64::MIN { i64::MIN as int } else { a - b });
    pub assume_specification[ <i64>::saturating_mul ](a: i64, b: i64) -> (r: i64)
        ensures r == (if a * b > i64::MAX { i64::MAX as int } else if a * b < i64::MIN { i64::MIN as int } else { a * b });
    pub assume_specification[ <i64>::abs ](a: i64) -> (r: i64)
        requires a != i64::MIN
        ensures r == (if a < 0 { -a } else { a as int });
    pub assume_specification[ <i64>::wrapping_abs ](a: i64) -> (r: i64)
        ensures r == (if a < 0 && a != i64::MIN { -a } else { a as int });
    pub assume_specification[ <i64>::unsigned_abs ](a: i64) -> (r: u64)
        ensures r == (if a < 0 { -a } else { a as int });
    pub assume_specification[ <i64>::abs_diff ](a: i64, b: i64) -> (r: u64)
        ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[ <i64>::signum ](a: i64) -> (r: i64)
        ensures r == (if a < 0 { -1int } else if a > 0 { 1int } else { 0int });
    pub assume_specification[ <i64>::is_positive ](a: i64) -> (r: bool)
        ensures r == (a > 0);
    pub assume_specification[ <i64>::is_negative ](a: i64) -> (r: bool)
        ensures r == (a < 0);
    pub assume_specification[ <i64>::wrapping_neg ](a: i64) -> (r: i64)
        ensures r == (if a == i64::MIN { a as int } else { -a });
    pub assume_specification[ <i64>::checked_neg ](a: i64) -> (r: Option<i64>)
        ensures r == (if a == i64::MIN { None } else { Some((-a) as i64) });
    pub assume_specification[ <i64>::rem_euclid ](a: i64, b: i64) -> (r: i64)
        requires b != 0, !(a == i64::MIN && b == -1)
        ensures r == (a as int) % (b as int);
    pub assume_specification[ <i64>::div_euclid ](a: i64, b: i64) -> (r: i64)
        requires b != 0, !(a == i64::MIN && b == -1)
        ensures r == (a as int) / (b as int);
    pub assume_specification[ <i64>::overflowing_add ](a: i64, b: i64) -> (r: (i64, bool))
        ensures r.0 == cast_i64(a + b), r.1 == !(i64::MIN <= a + b <= i64::MAX);
    pub assume_specification[ <i64>::overflowing_sub ](a: i64, b: i64) -> (r: (i64, bool))
        ensures r.0 == cast_i64(a - b), r.1 == !(i64::MIN <= a - b <= i64::MAX);
    pub assume_specification[ <i32>::saturating_add ](a: i32, b: i32) -> (r: i32)
        ensures r == (if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b });
    pub assume_specification[ <i32>::saturating_sub ](a: i32, b: i32) -> (r: i32)
        ensures r == (if a - b > i32::MAX { i32::MAX as int } else if a - b < i32::MIN { i32::MIN as int } else { a - b });
    pub assume_specification[ <i32>::saturating_mul ](a: i32, b: i32) -> (r: i32)
        ensures r == (if a * b > i32::MAX { i32::MAX as int } else if a * b < i32::MIN { i32::MIN as int } else { a * b });
    pub assume_specification[ <i32>::abs ](a: i32) -> (r: i32)
        requires a != i32::MIN
        ensures r == (if a < 0 { -a } else { a as int });
    pub assume_specification[ <i32>::wrapping_abs ](a: i32) -> (r: i32)
        ensures r == (if a < 0 && a != i32::MIN { -a } else { a as int });
    pub assume_specification[ <i32>::unsigned_abs ](a: i32) -> (r: u32)
        ensures r == (if a < 0 { -a } else { a as int });
    pub assume_specification[ <i32>::abs_diff ](a: i32, b: i32) -> (r: u32)
        ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[ <i32>::signum ](a: i32) -> (r: i32)
        ensures r == (if a < 0 { -1int } else if a > 0 { 1int } else { 0int });
    pub assume_specification[ <i32>::is_positive ](a: i32) -> (r: bool)
        ensures r == (a > 0);
    pub assume_specification[ <i32>::is_negative ](a: i32) -> (r: bool)
        ensures r == (a < 0);
    pub assume_specification[ <i32>::wrapping_neg ](a: i32) -> (r: i32)
        ensures r == (if a == i32::MIN { a as int } else { -a });
    pub assume_specification[ <i32>::checked_neg ](a: i32) -> (r: Option<i32>)
        ensures r == (if a == i32::MIN { None } else { Some((-a) as i32) });
    pub assume_specification[ <i32>::rem_euclid ](a: i32, b: i32) -> (r: i32)
        requires b != 0, !(a == i32::MIN && b == -1)
        ensures r == (a as int) % (b as int);
    pub assume_specification[ <i32>::div_euclid ](a: i32, b: i32) -> (r: i32)
        requires b != 0, !(a == i32::MIN && b == -1)
        ensures r == (a as int) / (b as int);
    pub assume_specification[ <i32>::overflowing_add ](a: i32, b: i32) -> (r: (i32, bool))
        ensures r.0 == cast_i32(a + b), r.1 == !(i32::MIN <= a + b <= i32::MAX);
    pub assume_specification[ <i32>::overflowing_sub ](a: i32, b: i32) -> (r: (i32, bool))
        ensures r.0 == cast_i32(a - b), r.1 == !(i32::MIN <= a - b <= i32::MAX);
    pub assume_specification[ <u8>::abs_diff ](a: u8, b: u8) -> (r: u8)
        ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[ <u8>::overflowing_add ](a: u8, b: u8) -> (r: (u8, bool))
        ensures r.0 == cast_u8(a + b), r.1 == (a + b > u8::MAX);
    pub assume_specification[ <u8>::overflowing_sub ](a: u8, b: u8) -> (r: (u8, bool))
        ensures r.0 == cast_u8(a - b), r.1 == (a < b);
    pub assume_specification[ <u8>::rem_euclid ](a: u8, b: u8) -> (r: u8)
        requires b != 0
        ensures r == (a as int) % (b as int);
    pub assume_specification[ <u8>::div_euclid ](a: u8, b: u8) -> (r: u8)
        requires b != 0
        ensures r == (a as int) / (b as int);
    pub assume_specification[ <u32>::abs_diff ](a: u32, b: u32) -> (r: u32)
        ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[ <u32>::overflowing_add ](a: u32, b: u32) -> (r: (u32, bool))
        ensures r.0 == cast_u32(a + b), r.1 == (a + b > u32::MAX);
    pub assume_specification[ <u32>::overflowing_sub ](a: u32, b: u32) -> (r: (u32, bool))
        ensures r.0 == cast_u32(a - b), r.1 == (a < b);
    pub assume_specification[ <u32>::rem_euclid ](a: u32, b: u32) -> (r: u32)
        requires b != 0
        ensures r == (a as int) % (b as int);
    pub assume_specification[ <u32>::div_euclid ](a: u32, b: u32) -> (r: u32)
        requires b != 0
        ensures r == (a as int) / (b as int);
    pub assume_specification[ <u64>::abs_diff ](a: u64, b: u64) -> (r: u64)
        ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[ <u64>::overflowing_add ](a: u64, b: u64) -> (r: (u64, bool))
        ensures r.0 == cast_u64(a + b), r.1 == (a + b > u64::MAX);
    pub assume_specification[ <u64>::overflowing_sub ](a: u64, b: u64) -> (r: (u64, bool))
        ensures r.0 == cast_u64(a - b), r.1 == (a < b);
    pub assume_specification[ <u64>::rem_euclid ](a: u64, b: u64) -> (r: u64)
        requires b != 0
        ensures r == (a as int) % (b as int);
    pub assume_specification[ <u64>::div_euclid ](a: u64, b: u64) -> (r: u64)
        requires b != 0
        ensures r == (a as int) / (b as int);
    pub assume_specification[ <usize>::abs_diff ](a: usize, b: usize) -> (r: usize)
        ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[ <usize>::overflowing_add ](a: usize, b: usize) -> (r: (usize, bool))
        ensures r.0 == cast_usize(a + b), r.1 == (a + b > usize::MAX);
    pub assume_specification[ <usize>::overflowing_sub ](a: usize, b: usize) -> (r: (usize, bool))
        ensures r.0 == cast_usize(a - b), r.1 == (a < b);
    pub assume_specification[ <usize>::rem_euclid ](a: usize, b: usize) -> (r: usize)
        requires b != 0
        ensures r == (a as int) % (b as int);
    pub assume_specification[ <usize>::div_euclid ](a: usize, b: usize) -> (r: usize)
        requires b != 0
        ensures r == (a as int) / (b as int);

    // ------------------------------------------------------------------ `as` between integers
    pub trait AsInt: Sized {
        spec fn si(&self) -> int;
        fn vp_as_i8(self) -> (r: i8) ensures r == cast_i8(self.si());
        fn vp_as_i16(self) -> (r: i16) ensures r == cast_i16(self.si());
        fn vp_as_i32(self) -> (r: i32) ensures r == cast_i32(self.si());
        fn vp_as_i64(self) -> (r: i64) ensures r == cast_i64(self.si());
        fn vp_as_u8(self) -> (r: u8) ensures r == cast_u8(self.si());
        fn vp_as_u16(self) -> (r: u16) ensures r == cast_u16(self.si());
        fn vp_as_u32(self) -> (r: u32) ensures r == cast_u32(self.si());
        fn vp_as_u64(self) -> (r: u64) ensures r == cast_u64(self.si());
        fn vp_as_usize(self) -> (r: usize) ensures r == cast_usize(self.si());
        fn vp_as_isize(self) -> (r: isize) ensures r == cast_isize(self.si());
    }
    pub open spec fn cast_i8(x: int) -> i8 { if -0x80 <= x < 0x80 { x as i8 } else { (if x % 0x100 < 0x80 { x % 0x100 } else { x % 0x100 - 0x100 }) as i8 } }
    pub fn as_i8<T: AsInt>(x: T) -> (r: i8) ensures r == cast_i8(x.si()) { x.vp_as_i8() }
    pub open spec fn cast_i16(x: int) -> i16 { if -0x8000 <= x < 0x8000 { x as i16 } else { (if x % 0x10000 < 0x8000 { x % 0x10000 } else { x % 0x10000 - 0x10000 }) as i16 } }
    pub fn as_i16<T: AsInt>(x: T) -> (r: i16) ensures r == cast_i16(x.si()) { x.vp_as_i16() }
    pub open spec fn cast_i32(x: int) -> i32 { if -0x80000000 <= x < 0x80000000 { x as i32 } else { (if x % 0x100000000 < 0x80000000 { x % 0x100000000 } else { x % 0x100000000 - 0x100000000 }) as i32 } }
    pub fn as_i32<T: AsInt>(x: T) -> (r: i32) ensures r == cast_i32(x.si()) { x.vp_as_i32() }
    pub open spec fn cast_i64(x: int) -> i64 { if -0x8000000000000000 <= x < 0x8000000000000000 { x as i64 } else { (if x % 0x10000000000000000 < 0x8000000000000000 { x % 0x10000000000000000 } else { x % 0x10000000000000000 - 0x10000000000000000 }) as i64 } }
    pub fn as_i64<T: AsInt>(x: T) -> (r: i64) ensures r == cast_i64(x.si()) { x.vp_as_i64() }
    pub open spec fn cast_u8(x: int) -> u8 { if 0 <= x < 0x100 { x as u8 } else { (x % 0x100) as u8 } }
    pub fn as_u8<T: AsInt>(x: T) -> (r: u8) ensures r == cast_u8(x.si()) { x.vp_as_u8() }
    pub open spec fn cast_u16(x: int) -> u16 { if 0 <= x < 0x10000 { x as u16 } else { (x % 0x10000) as u16 } }
    pub fn as_u16<T: AsInt>(x: T) -> (r: u16) ensures r == cast_u16(x.si()) { x.vp_as_u16() }
    pub open spec fn cast_u32(x: int) -> u32 { if 0 <= x < 0x100000000 { x as u32 } else { (x % 0x100000000) as u32 } }
    pub fn as_u32<T: AsInt>(x: T) -> (r: u32) ensures r == cast_u32(x.si()) { x.vp_as_u32() }
    pub open spec fn cast_u64(x: int) -> u64 { if 0 <= x < 0x10000000000000000 { x as u64 } else { (x % 0x10000000000000000) as u64 } }
    pub fn as_u64<T: AsInt>(x: T) -> (r: u64) ensures r == cast_u64(x.si()) { x.vp_as_u64() }
    pub open spec fn cast_usize(x: int) -> usize { if 0 <= x < 0x10000000000000000 { x as usize } else { (x % 0x10000000000000000) as usize } }
    pub fn as_usize<T: AsInt>(x: T) -> (r: usize) ensures r == cast_usize(x.si()) { x.vp_as_usize() }
    pub open spec fn cast_isize(x: int) -> isize { if -0x8000000000000000 <= x < 0x8000000000000000 { x as isize } else { (if x % 0x10000000000000000 < 0x8000000000000000 { x % 0x10000000000000000 } else { x % 0x10000000000000000 - 0x10000000000000000 }) as isize } }
    pub fn as_isize<T: AsInt>(x: T) -> (r: isize) ensures r == cast_isize(x.si()) { x.vp_as_isize() }
    impl AsInt for i8 {
        open spec fn si(&self) -> int { *self as int }
        #[verifier::external_body] fn vp_as_i8(self) -> (r: i8) { self as i8 }
        #[verifier::external_body] fn vp_as_i16(self) -> (r: i16) { self as i16 }
        #[verifier::external_body] fn vp_as_i32(self) -> (r: i32) { self as i32 }
        #[verifier::external_body] fn vp_as_i64(self) -> (r: i64) { self as i64 }
        #[verifier::external_body] fn vp_as_u8(self) -> (r: u8) { self as u8 }
        #[verifier::external_body] fn vp_as_u16(self) -> (r: u16) { self as u16 }
        #[verifier::external_body] fn vp_as_u32(self) -> (r: u32) { self as u32 }
        #[verifier::external_body] fn vp_as_u64(self) -> (r: u64) { self as u64 }
        #[verifier::external_body] fn vp_as_usize(self) -> (r: usize) { self as usize }
        #[verifier::external_body] fn vp_as_isize(self) -> (r: isize) { self as isize }
    }
    impl AsInt for i16 {
        open spec fn si(&self) -> int { *self as int }
        #[verifier::external_body] fn vp_as_i8(self) -> (r: i8) { self as i8 }
        #[verifier::external_body] fn vp_as_i16(self) -> (r: i16) { self as i16 }
        #[verifier::external_body] fn vp_as_i32(self) -> (r: i32) { self as i32 }
        #[verifier::external_body] fn vp_as_i64(self) -> (r: i64) { self as i64 }
        #[verifier::external_body] fn vp_as_u8(self) -> (r: u8) { self as u8 }
        #[verifier::external_body] fn vp_as_u16(self) -> (r: u16) { self as u16 }
        #[verifier::external_body] fn vp_as_u32(self) -> (r: u32) { self as u32 }
        #[verifier::external_body] fn vp_as_u64(self) -> (r: u64) { self as u64 }
        #[verifier::external_body] fn vp_as_usize(self) -> (r: usize) { self as usize }
        #[verifier::external_body] fn vp_as_isize(self) -> (r: isize) { self as isize }
    }
    impl AsInt for i32 {
        open spec fn si(&self) -> int { *self as int }
        #[verifier::external_body] fn vp_as_i8(self) -> (r: i8) { self as i8 }
        #[verifier::external_body] fn vp_as_i16(self) -> (r: i16) { self as i16 }
        #[verifier::external_body] fn vp_as_i32(self) -> (r: i32) { self as i32 }
        #[verifier::external_body] fn vp_as_i64(self) -> (r: i64) { self as i64 }
        #[verifier::external_body] fn vp_as_u8(self) -> (r: u8) { self as u8 }
        #[verifier::external_body] fn vp_as_u16(self) -> (r: u16) { self as u16 }
        #[verifier::external_body] fn vp_as_u32(self) -> (r: u32) { self as u32 }
        #[verifier::external_body] fn vp_as_u64(self) -> (r: u64) { self as u64 }
        #[verifier::external_body] fn vp_as_usize(self) -> (r: usize) { self as usize }
        #[verifier::external_body] fn vp_as_isize(self) -> (r: isize) { self as isize }
    }
    impl AsInt for i64 {
        open spec fn si(&self) -> int { *self as int }
        #[verifier::external_body] fn vp_as_i8(self) -> (r: i8) { self as i8 }
        #[verifier::external_body] fn vp_as_i16(self) -> (r: i16) { self as i16 }
        #[verifier::external_body] fn vp_as_i32(self) -> (r: i32) { self as i32 }
        #[verifier::external_body] fn vp_as_i64(self) -> (r: i64) { self as i64 }
        #[verifier::external_body] fn vp_as_u8(self) -> (r: u8) { self as u8 }
        #[verifier::external_body] fn vp_as_u16(self) -> (r: u16) { self as u16 }
        #[verifier::external_body] fn vp_as_u32(self) -> (r: u32) { self as u32 }
        #[verifier::external_body] fn vp_as_u64(self) -> (r: u64) { self as u64 }
        #[verifier::external_body] fn vp_as_usize(self) -> (r: usize) { self as usize }
        #[verifier::external_body] fn vp_as_isize(self) -> (r: isize) { self as isize }
    }
    impl AsInt for u8 {
        open spec fn si(&self) -> int { *self as int }
        #[verifier::external_body] fn vp_as_i8(self) -> (r: i8) { self as i8 }
        #[verifier::external_body] fn vp_as_i16(self) -> (r: i16) { self as i16 }
        #[verifier::external_body] fn vp_as_i32(self) -> (r: i32) { self as i32 }
        #[verifier::external_body] fn vp_as_i64(self) -> (r: i64) { self as i64 }
        #[verifier::external_body] fn vp_as_u8(self) -> (r: u8) { self as u8 }
        #[verifier::external_body] fn vp_as_u16(self) -> (r: u16) { self as u16 }
        #[verifier::external_body] fn vp_as_u32(self) -> (r: u32) { self as u32 }
        #[verifier::external_body] fn vp_as_u64(self) -> (r: u64) { self as u64 }
        #[verifier::external_body] fn vp_as_usize(self) -> (r: usize) { self as usize }
        #[verifier::external_body] fn vp_as_isize(self) -> (r: isize) { self as isize }
    }
    impl AsInt for u16 {
        open spec fn si(&self) -> int { *self as int }
        #[verifier::external_body] fn vp_as_i8(self) -> (r: i8) { self as i8 }
        #[verifier::external_body] fn vp_as_i16(self) -> (r: i16) { self as i16 }
        #[verifier::external_body] fn vp_as_i32(self) -> (r: i32) { self as i32 }
        #[verifier::external_body] fn vp_as_i64(self) -> (r: i64) { self as i64 }
        #[verifier::external_body] fn vp_as_u8(self) -> (r: u8) { self as u8 }
        #[verifier::external_body] fn vp_as_u16(self) -> (r: u16) { self as u16 }
        #[verifier::external_body] fn vp_as_u32(self) -> (r: u32) { self as u32 }
        #[verifier::external_body] fn vp_as_u64(self) -> (r: u64) { self as u64 }
        #[verifier::external_body] fn vp_as_usize(self) -> (r: usize) { self as usize }
        #[verifier::external_body] fn vp_as_isize(self) -> (r: isize) { self as isize }
    }
    impl AsInt for u32 {
        open spec fn si(&self) -> int { *self as int }
        #[verifier::external_body] fn vp_as_i8(self) -> (r: i8) { self as i8 }
        #[verifier::external_body] fn vp_as_i16(self) -> (r: i16) { self as i16 }
        #[verifier::external_body] fn vp_as_i32(self) -> (r: i32) { self as i32 }
        #[verifier::external_body] fn vp_as_i64(self) -> (r: i64) { self as i64 }
        #[verifier::external_body] fn vp_as_u8(self) -> (r: u8) { self as u8 }
        #[verifier::external_body] fn vp_as_u16(self) -> (r: u16) { self as u16 }
        #[verifier::external_body] fn vp_as_u32(self) -> (r: u32) { self as u32 }
        #[verifier::external_body] fn vp_as_u64(self) -> (r: u64) { self as u64 }
        #[verifier::external_body] fn vp_as_usize(self) -> (r: usize) { self as usize }
        #[verifier::external_body] fn vp_as_isize(self) -> (r: isize) { self as isize }
    }
    impl AsInt for u64 {
        open spec fn si(&self) -> int { *self as int }
        #[verifier::external_body] fn vp_as_i8(self) -> (r: i8) { self as i8 }
        #[verifier::external_body] fn vp_as_i16(self) -> (r: i16) { self as i16 }
        #[verifier::external_body] fn vp_as_i32(self) -> (r: i32) { self as i32 }
        #[verifier::external_body] fn vp_as_i64(self) -> (r: i64) { self as i64 }
        #[verifier::external_body] fn vp_as_u8(self) -> (r: u8) { self as u8 }
        #[verifier::external_body] fn vp_as_u16(self) -> (r: u16) { self as u16 }
        #[verifier::external_body] fn vp_as_u32(self) -> (r: u32) { self as u32 }
        #[verifier::external_body] fn vp_as_u64(self) -> (r: u64) { self as u64 }
        #[verifier::external_body] fn vp_as_usize(self) -> (r: usize) { self as usize }
        #[verifier::external_body] fn vp_as_isize(self) -> (r: isize) { self as isize }
    }
    impl AsInt for usize {
        open spec fn si(&self) -> int { *self as int }
        #[verifier::external_body] fn vp_as_i8(self) -> (r: i8) { self as i8 }
        #[verifier::external_body] fn vp_as_i16(self) -> (r: i16) { self as i16 }
        #[verifier::external_body] fn vp_as_i32(self) -> (r: i32) { self as i32 }
        #[verifier::external_body] fn vp_as_i64(self) -> (r: i64) { self as i64 }
        #[verifier::external_body] fn vp_as_u8(self) -> (r: u8) { self as u8 }
        #[verifier::external_body] fn vp_as_u16(self) -> (r: u16) { self as u16 }
        #[verifier::external_body] fn vp_as_u32(self) -> (r: u32) { self as u32 }
        #[verifier::external_body] fn vp_as_u64(self) -> (r: u64) { self as u64 }
        #[verifier::external_body] fn vp_as_usize(self) -> (r: usize) { self as usize }
        #[verifier::external_body] fn vp_as_isize(self) -> (r: isize) { self as isize }
    }
    impl AsInt for isize {
        open spec fn si(&self) -> int { *self as int }
        #[verifier::external_body] fn vp_as_i8(self) -> (r: i8) { self as i8 }
        #[verifier::external_body] fn vp_as_i16(self) -> (r: i16) { self as i16 }
        #[verifier::external_body] fn vp_as_i32(self) -> (r: i32) { self as i32 }
        #[verifier::external_body] fn vp_as_i64(self) -> (r: i64) { self as i64 }
        #[verifier::external_body] fn vp_as_u8(self) -> (r: u8) { self as u8 }
        #[verifier::external_body] fn vp_as_u16(self) -> (r: u16) { self as u16 }
        #[verifier::external_body] fn vp_as_u32(self) -> (r: u32) { self as u32 }
        #[verifier::external_body] fn vp_as_u64(self) -> (r: u64) { self as u64 }
        #[verifier::external_body] fn vp_as_usize(self) -> (r: usize) { self as usize }
        #[verifier::external_body] fn vp_as_isize(self) -> (r: isize) { self as isize }
    }
    impl AsInt for bool {
        open spec fn si(&self) -> int { if *self { 1 } else { 0 } }
        #[verifier::external_body] fn vp_as_i8(self) -> (r: i8) { self as i8 }
        #[verifier::external_body] fn vp_as_i16(self) -> (r: i16) { self as i16 }
        #[verifier::external_body] fn vp_as_i32(self) -> (r: i32) { self as i32 }
        #[verifier::external_body] fn vp_as_i64(self) -> (r: i64) { self as i64 }
        #[verifier::external_body] fn vp_as_u8(self) -> (r: u8) { self as u8 }
        #[verifier::external_body] fn vp_as_u16(self) -> (r: u16) { self as u16 }
        #[verifier::external_body] fn vp_as_u32(self) -> (r: u32) { self as u32 }
        #[verifier::external_body] fn vp_as_u64(self) -> (r: u64) { self as u64 }
        #[verifier::external_body] fn vp_as_usize(self) -> (r: usize) { self as usize }
        #[verifier::external_body] fn vp_as_isize(self) -> (r: isize) { self as isize }
    }

    // ------------------------------------------------------------------ `?` and `.into()`
    /// the crate's conversions into its error type
    pub trait IntoErr<T>: Sized {
        spec fn conv(&self, t: T) -> bool;
        spec fn conv_pre(&self) -> bool;
        fn cv(self) -> (r: T) requires self.conv_pre() ensures self.conv(r);
    }
    impl IntoErr<crate::error::Error> for crate::error::Error {
        open spec fn conv_pre(&self) -> bool { true }
        open spec fn conv(&self, t: crate::error::Error) -> bool { *self == t }
        fn cv(self) -> (r: crate::error::Error) { self }
    }
    impl IntoErr<crate::dep::protobuf::Error> for crate::dep::protobuf::Error {
        open spec fn conv_pre(&self) -> bool { true }
        open spec fn conv(&self, t: crate::dep::protobuf::Error) -> bool { *self == t }
        fn cv(self) -> (r: crate::dep::protobuf::Error) { self }
    }
    impl IntoErr<crate::error::Error> for crate::dep::std::io::Error {
        open spec fn conv_pre(&self) -> bool { true }
        open spec fn conv(&self, t: crate::error::Error) -> bool { *t.0 == crate::error::ErrorKind::Io(*self) }
        fn cv(self) -> (r: crate::error::Error) { crate::error::Error::from(self) }
    }
    pub fn into_err<S: IntoErr<T>, T>(e: S) -> (r: T) requires e.conv_pre() ensures e.conv(r) { e.cv() }
    impl IntoErr<i64> for i32 {
        open spec fn conv_pre(&self) -> bool { true }
        open spec fn conv(&self, t: i64) -> bool { *self == t }
        fn cv(self) -> (r: i64) { self as i64 }
    }
    impl IntoErr<u64> for u32 {
        open spec fn conv_pre(&self) -> bool { true }
        open spec fn conv(&self, t: u64) -> bool { *self == t }
        fn cv(self) -> (r: u64) { self as u64 }
    }

    /// `==` of options
    pub fn opt_eq<T: Structural + PartialEq>(a: &Option<T>, b: &Option<T>) -> (r: bool) ensures r == (*a == *b) {
        match (a, b) {
            (Some(x), Some(y)) => *x == *y,
            (None, None) => true,
            _ => false,
        }
    }

    // ------------------------------------------------------------------ panics
    #[verifier::external_body]
    pub fn panic_now() -> ! requires false { panic!() }

    // ------------------------------------------------------------------ slices
    #[verifier::external_body]
    pub fn empty_slice<T>() -> (r: &'static [T]) ensures r@.len() == 0 { &[] }
    #[verifier::external_body]
    pub fn empty_iter<'a, T>() -> (r: crate::dep::std::slice::Iter<'a, T>) ensures r.rest().len() == 0 { unimplemented!() }

    /// vocabulary of the contracts; imported into every module
    pub mod ext {
        use vstd::prelude::*;
        pub use crate::dep::std::io::ReadMore;
        // ------------------------------------------------------------------ arithmetic vocabulary
        /// reduction to 64-bit two's complement
        pub open spec fn trunc64(x: int) -> i64 {
            let m = x % 0x1_0000_0000_0000_0000;
            (if m < 0x8000_0000_0000_0000 { m } else { m - 0x1_0000_0000_0000_0000 }) as i64
        }
        /// reduction to 32-bit two's complement
        pub open spec fn trunc32(x: int) -> i32 {
            let m = x % 0x1_0000_0000;
            (if m < 0x8000_0000 { m } else { m - 0x1_0000_0000 }) as i32
        }
        /// quotient truncated toward zero
        pub open spec fn tdiv(a: int, b: int) -> int {
            if a >= 0 { a / b } else { -((-a) / b) }
        }
        /// sum of the first k values
        pub open spec fn sum64(s: Seq<i64>, k: int) -> int
            decreases k
        {
            if k <= 0 { 0 } else { sum64(s, k - 1) + s[k - 1] }
        }
        pub open spec fn sum32(s: Seq<i32>, k: int) -> int
            decreases k
        {
            if k <= 0 { 0 } else { sum32(s, k - 1) + s[k - 1] }
        }
        pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }

        pub open spec fn pop<T>(s: Seq<T>) -> Seq<T> { if s.len() > 0 { s.drop_first() } else { s } }
        pub open spec fn run64(n: nat, c: i64, s: Seq<i64>) -> Seq<i64> {
            Seq::new(n, |k: int| trunc64(c + sum64(s, k + 1)))
        }
        pub proof fn lemma_sum64_pop(s: Seq<i64>, k: int)
            requires 0 <= k < s.len()
            ensures sum64(s, k + 1) == s[0] + sum64(s.drop_first(), k)
            decreases k
        {
            reveal_with_fuel(sum64, 2);
            if k > 0 { lemma_sum64_pop(s, k - 1); assert(s.drop_first()[k - 1] == s[k]); }
        }
        pub proof fn lemma_sum32_pop(s: Seq<i32>, k: int)
            requires 0 <= k < s.len()
            ensures sum32(s, k + 1) == s[0] + sum32(s.drop_first(), k)
            decreases k
        {
            reveal_with_fuel(sum32, 2);
            if k > 0 { lemma_sum32_pop(s, k - 1); assert(s.drop_first()[k - 1] == s[k]); }
        }
        pub proof fn lemma_acc64_0(c: i64, s: Seq<i64>)
            requires 0 < s.len()
            ensures trunc64(c + sum64(s, 1)) == c.wrapping_add(s[0])
        {
            reveal_with_fuel(sum64, 2);
        }
        pub proof fn lemma_acc32_0(c: i32, s: Seq<i32>)
            requires 0 < s.len()
            ensures trunc32(c + sum32(s, 1)) == c.wrapping_add(s[0])
        {
            reveal_with_fuel(sum32, 2);
        }
        pub proof fn lemma_acc64(c: i64, s: Seq<i64>, k: int)
            requires 0 <= k, k + 1 < s.len()
            ensures trunc64(c.wrapping_add(s[0]) + sum64(s.drop_first(), k + 1)) == trunc64(c + sum64(s, k + 2))
        {
            lemma_sum64_pop(s, k + 1);
        }
        pub proof fn lemma_acc32(c: i32, s: Seq<i32>, k: int)
            requires 0 <= k, k + 1 < s.len()
            ensures trunc32(c.wrapping_add(s[0]) + sum32(s.drop_first(), k + 1)) == trunc32(c + sum32(s, k + 2))
        {
            lemma_sum32_pop(s, k + 1);
        }
        /// taking one delta off the front and adding it to the running value keeps the remaining values
        pub proof fn lemma_run64(n: nat, c: i64, s: Seq<i64>)
            requires n <= s.len()
            ensures
                n > 0 ==> run64(n, c, s)[0] == c.wrapping_add(s[0]),
                n > 0 ==> run64((n - 1) as nat, c.wrapping_add(s[0]), s.drop_first()) == run64(n, c, s).drop_first(),
        {
            reveal_with_fuel(sum64, 2);
            if n > 0 {
                let d = run64((n - 1) as nat, c.wrapping_add(s[0]), s.drop_first());
                let e = run64(n, c, s).drop_first();
                assert forall|k: int| 0 <= k < n - 1 implies d[k] == e[k] by {
                    lemma_sum64_pop(s, k + 1);
                }
                assert(d =~= e);
            }
        }
        // ------------------------------------------------------------------ floating point (uninterpreted)
        pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
        pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
        pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
        pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
        pub uninterp spec fn fneg(a: f64) -> f64;
        pub uninterp spec fn i2f(a: int) -> f64;
        pub broadcast axiom fn axiom_fmul_comm(a: f64, b: f64)
            ensures #[trigger] fmul(a, b) == fmul(b, a);
        /// a slice has at most usize::MAX items
        pub broadcast axiom fn axiom_slice_len<T>(s: &[T])
            ensures (#[trigger] s@).len() <= usize::MAX;
        pub broadcast axiom fn axiom_slice_bytes(s: &[u8]) ensures (#[trigger] s@).len() <= isize::MAX;
        pub broadcast axiom fn axiom_slice_i32(s: &[i32]) ensures (#[trigger] s@).len() <= isize::MAX;
        pub broadcast axiom fn axiom_slice_u32(s: &[u32]) ensures (#[trigger] s@).len() <= isize::MAX;
        pub broadcast axiom fn axiom_slice_i64(s: &[i64]) ensures (#[trigger] s@).len() <= isize::MAX;
        pub broadcast axiom fn axiom_vec_bytes(s: Vec<u8>) ensures (#[trigger] s@).len() <= isize::MAX;
        pub broadcast axiom fn axiom_vec_i32(s: Vec<i32>) ensures (#[trigger] s@).len() <= isize::MAX;
        pub broadcast axiom fn axiom_vec_u32(s: Vec<u32>) ensures (#[trigger] s@).len() <= isize::MAX;
        pub broadcast axiom fn axiom_vec_i64(s: Vec<i64>) ensures (#[trigger] s@).len() <= isize::MAX;
        /// an allocation has at most isize::MAX bytes
        pub broadcast axiom fn axiom_table_len(v: Vec<Vec<u8>>)
            ensures (#[trigger] v@).len() <= isize::MAX;
        pub broadcast proof fn lemma_mul_comm(a: int, b: int)
            ensures #[trigger] (a * b) == b * a
        {
            assert(a * b == b * a) by (nonlinear_arith);
        }
        pub broadcast proof fn lemma_sub_sub<T>(s: Seq<T>, e: int, a: int, b: int)
            requires 0 <= a <= b <= e <= s.len()
            ensures #[trigger] s.subrange(0, e).subrange(a, b) == s.subrange(a, b)
        { assert(s.subrange(0, e).subrange(a, b) =~= s.subrange(a, b)); }
        pub broadcast proof fn lemma_sub_all<T>(s: Seq<T>)
            ensures #[trigger] s.subrange(0, s.len() as int) == s
        { assert(s.subrange(0, s.len() as int) =~= s); }
        pub broadcast proof fn lemma_sub_tail<T>(s: Seq<T>, o: int, e: int, a: int, b: int)
            requires 0 <= o <= e <= s.len(), 0 <= a <= b <= e - o
            ensures #[trigger] s.subrange(o, e).subrange(a, b) == s.subrange(o + a, o + b)
        { assert(s.subrange(o, e).subrange(a, b) =~= s.subrange(o + a, o + b)); }
        pub broadcast group subtail { lemma_sub_tail }
        pub broadcast group subseq { lemma_sub_sub, lemma_sub_all }
        pub broadcast group vp_axioms { lemma_mul_comm, axiom_slice_len, axiom_slice_bytes, axiom_slice_i32, axiom_slice_u32, axiom_slice_i64, axiom_vec_bytes, axiom_vec_i32, axiom_vec_u32, axiom_vec_i64, axiom_fmul_comm, axiom_table_len }
        use crate::dep::std::slice::{Iter, Chunks};
        /// what `extend` and `collect` do with one item
        pub trait VpAdd<T> {
            spec fn added(&self, x: T, o: &Self) -> bool;
            fn vp_add(&mut self, x: T)
                ensures old(self).added(x, final(self));
        }
        impl<T> VpAdd<T> for Vec<T> {
            open spec fn added(&self, x: T, o: &Self) -> bool { o@ == self@.push(x) }
            #[verifier::external_body]
            fn vp_add(&mut self, x: T) { unimplemented!() }
        }
        impl<T> VpAdd<T> for crate::dep::std::collections::BTreeSet<T> {
            open spec fn added(&self, x: T, o: &Self) -> bool { o@ == self@.insert(x) }
            #[verifier::external_body]
            fn vp_add(&mut self, x: T) { unimplemented!() }
        }
        pub open spec fn ascending(s: Seq<i64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
        pub trait VpSearch {
            spec fn vp_items(&self) -> Seq<i64>;
            /// finds a value if it is there and the items are in ascending order
            fn vp_binary_search(&self, x: &i64) -> (r: Result<usize, usize>)
                ensures
                    r matches Ok(i) ==> i < self.vp_items().len() && self.vp_items()[i as int] == *x,
                    r is Err ==> ascending(self.vp_items()) ==> !self.vp_items().contains(*x);
        }
        /// membership tests
        pub trait VpContains<T> {
            spec fn has(&self, x: T) -> bool;
            fn vp_contains(&self, x: &T) -> (r: bool) ensures r == self.has(*x);
        }
        impl VpContains<i64> for Vec<i64> {
            open spec fn has(&self, x: i64) -> bool { self@.contains(x) }
            #[verifier::external_body]
            fn vp_contains(&self, x: &i64) -> (r: bool) { unimplemented!() }
        }
        impl VpContains<i64> for [i64] {
            open spec fn has(&self, x: i64) -> bool { self@.contains(x) }
            #[verifier::external_body]
            fn vp_contains(&self, x: &i64) -> (r: bool) { unimplemented!() }
        }
        impl<T> VpContains<T> for crate::dep::std::collections::BTreeSet<T> {
            open spec fn has(&self, x: T) -> bool { self@.contains(x) }
            #[verifier::external_body]
            fn vp_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
        }
        impl VpContains<i64> for crate::dep::std::ops::RangeInclusive<i64> {
            open spec fn has(&self, x: i64) -> bool { self.lo() <= x <= self.hi() }
            #[verifier::external_body]
            fn vp_contains(&self, x: &i64) -> (r: bool) { unimplemented!() }
        }
        pub trait VpDeref {
            type T: ?Sized;
            spec fn derefs(&self, r: Option<&Self::T>) -> bool;
            fn vp_as_deref(&self) -> (r: Option<&Self::T>) ensures self.derefs(r);
        }
        impl VpDeref for Option<String> {
            type T = str;
            open spec fn derefs(&self, r: Option<&str>) -> bool {
                match self { Some(x) => r is Some && r->0@ == x@, None => r is None }
            }
            #[verifier::external_body]
            fn vp_as_deref(&self) -> (r: Option<&str>) { unimplemented!() }
        }
        impl<X> VpDeref for Option<Vec<X>> {
            type T = [X];
            open spec fn derefs(&self, r: Option<&[X]>) -> bool {
                match self { Some(x) => r is Some && r->0@ == x@, None => r is None }
            }
            #[verifier::external_body]
            fn vp_as_deref(&self) -> (r: Option<&[X]>) { unimplemented!() }
        }
        impl VpSearch for Vec<i64> {
            open spec fn vp_items(&self) -> Seq<i64> { self@ }
            #[verifier::external_body]
            fn vp_binary_search(&self, x: &i64) -> (r: Result<usize, usize>) { unimplemented!() }
        }
        impl VpSearch for [i64] {
            open spec fn vp_items(&self) -> Seq<i64> { self@ }
            #[verifier::external_body]
            fn vp_binary_search(&self, x: &i64) -> (r: Result<usize, usize>) { unimplemented!() }
        }
        pub trait VpIter<T> {
            spec fn vp_seq(&self) -> Seq<T>;
            fn vp_iter<'a>(&'a self) -> (r: Iter<'a, T>) ensures r.rest() == self.vp_seq(), self.vp_seq().len() <= usize::MAX;
            fn vp_chunks<'a>(&'a self, n: usize) -> (r: Chunks<'a, T>)
                requires n > 0
                ensures r.rest() == self.vp_seq(), r.size() == n, self.vp_seq().len() <= usize::MAX;
        }
        impl<T> VpIter<T> for [T] {
            open spec fn vp_seq(&self) -> Seq<T> { self@ }
            #[verifier::external_body]
            fn vp_iter<'a>(&'a self) -> (r: Iter<'a, T>) { unimplemented!() }
            #[verifier::external_body]
            fn vp_chunks<'a>(&'a self, n: usize) -> (r: Chunks<'a, T>) { unimplemented!() }
        }
        impl<T> VpIter<T> for Vec<T> {
            open spec fn vp_seq(&self) -> Seq<T> { self@ }
            #[verifier::external_body]
            fn vp_iter<'a>(&'a self) -> (r: Iter<'a, T>) { unimplemented!() }
            #[verifier::external_body]
            fn vp_chunks<'a>(&'a self, n: usize) -> (r: Chunks<'a, T>) { unimplemented!() }
        }
    }

    pub mod std {
        pub mod cmp { pub use crate::dep::vp_min as min; pub use crate::dep::vp_max as max; }
        pub mod option { pub use ::std::option::Option; }
        pub mod result { pub use ::std::result::Result; }
        pub mod vec { pub use ::std::vec::Vec; }
        pub mod string { pub use ::std::string::String; }
        pub mod boxed { pub use ::std::boxed::Box; }
        pub mod mem { pub use ::std::mem::{replace, size_of, swap, take}; }

        // -------------------------------------------------------------- I/O
        pub mod io {
            use vstd::prelude::*;
            use vstd::slice::SliceAdditionalSpecFns;
            unsafe impl Structural for ErrorKind {}
            #[derive(Clone, Copy, PartialEq, Eq)]
            pub enum ErrorKind {
                NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse,
                AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero,
                Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other, Unlisted,
            }
            #[verifier::external_body]
            pub struct Error { x: u8 }
            impl Error {
                pub uninterp spec fn k(&self) -> ErrorKind;
                #[verifier::external_body]
                pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k() { unimplemented!() }
                #[verifier::external_body]
                pub fn new(kind: ErrorKind, msg: &str) -> (r: Error) ensures r.k() == kind { unimplemented!() }
                #[verifier::external_body]
                pub fn other(msg: &str) -> (r: Error) ensures r.k() == ErrorKind::Other { unimplemented!() }
            }
            impl ::std::convert::From<ErrorKind> for Error {
                #[verifier::external_body]
                fn from(kind: ErrorKind) -> (r: Error) ensures r.k() == kind { unimplemented!() }
            }
            pub type Result<T> = ::std::result::Result<T, Error>;

            /// A byte stream. `stream` is everything the reader delivers before the end (or before the error that ends
            /// it, if not `clean`), `pos` the current position in it. A reader that is not `reliable` may fail at any time.
            pub trait Read: Sized {
                spec fn stream(&self) -> Seq<u8>;
                spec fn pos(&self) -> int;
                spec fn clean(&self) -> bool;
                spec fn reliable(&self) -> bool;
                /// `self` is what `o` became by reading
                #[verifier::prophetic]
                spec fn after(&self, o: &Self) -> bool;
                fn take(self, limit: u64) -> (r: Take<Self>)
                    ensures r.inner() == self, r.lim() == limit;
            }
            /// the reading functions of `std::io::Read`
            pub trait ReadMore: Read {
                /// fills the whole buffer
                fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
                    requires (*old(self)).pos() >= 0
                    ensures
                        Self::after(&*final(self), &*old(self)),
                        (*final(self)).stream() == (*old(self)).stream(),
                        (*final(self)).clean() == (*old(self)).clean(),
                        (*final(self)).reliable() == (*old(self)).reliable(),
                        (*final(self)).pos() >= (*old(self)).pos(),
                        final(buf)@.len() == old(buf)@.len(),
                        match r {
                            Ok(_) => (*old(self)).pos() + old(buf)@.len() <= (*old(self)).stream().len()
                                && (*old(self)).stream().len() <= u64::MAX
                                && (*final(self)).pos() == (*old(self)).pos() + old(buf)@.len()
                                && final(buf)@ == (*old(self)).stream().subrange((*old(self)).pos(), (*old(self)).pos() + old(buf)@.len()),
                            Err(e) => if e.k() == ErrorKind::UnexpectedEof {
                                (*old(self)).pos() + old(buf)@.len() > (*old(self)).stream().len()
                            } else {
                                !(*old(self)).reliable() || (!(*old(self)).clean() && (*old(self)).pos() + old(buf)@.len() > (*old(self)).stream().len())
                            },
                        };
                /// one read: as many bytes as the source hands out at once, at least one unless it is at its end
                fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
                    requires (*old(self)).pos() >= 0
                    ensures
                        Self::after(&*final(self), &*old(self)),
                        (*final(self)).stream() == (*old(self)).stream(),
                        (*final(self)).clean() == (*old(self)).clean(),
                        (*final(self)).reliable() == (*old(self)).reliable(),
                        final(buf)@.len() == old(buf)@.len(),
                        match r {
                            Ok(n) => n <= old(buf)@.len()
                                && (*final(self)).pos() == (*old(self)).pos() + n
                                && (n > 0 ==> (*old(self)).pos() + n <= (*old(self)).stream().len() && (*old(self)).stream().len() <= u64::MAX
                                    && final(buf)@.subrange(0, n as int) == (*old(self)).stream().subrange((*old(self)).pos(), (*old(self)).pos() + n))
                                && (n == 0 && old(buf)@.len() > 0 ==> (*old(self)).clean() && (*old(self)).pos() >= (*old(self)).stream().len()),
                            Err(e) => (*final(self)).pos() == (*old(self)).pos()
                                && (!(*old(self)).reliable() || (!(*old(self)).clean() && (*old(self)).pos() >= (*old(self)).stream().len())),
                        };
                /// everything up to the end
                fn read_to_end(&mut self, buf: &mut ::std::vec::Vec<u8>) -> (r: Result<usize>)
                    requires (*old(self)).pos() >= 0
                    ensures
                        Self::after(&*final(self), &*old(self)),
                        (*final(self)).stream() == (*old(self)).stream(),
                        (*final(self)).clean() == (*old(self)).clean(),
                        (*final(self)).reliable() == (*old(self)).reliable(),
                        (*final(self)).pos() >= (*old(self)).pos(),
                        match r {
                            Ok(n) => (*old(self)).clean() && n as int == rest_of(*old(self)).len()
                                && final(buf)@ == old(buf)@ + rest_of(*old(self))
                                && (*final(self)).pos() == (*old(self)).pos() + n,
                            Err(_) => !(*old(self)).reliable() || !(*old(self)).clean(),
                        };
            }
            impl<R: Read> ReadMore for R {
                #[verifier::external_body]
                fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
                #[verifier::external_body]
                fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
                #[verifier::external_body]
                fn read_to_end(&mut self, buf: &mut ::std::vec::Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
            }
            #[verifier::external_body]
            pub struct Sink { x: u8 }
            #[verifier::external_body]
            pub fn sink() -> (r: Sink) { unimplemented!() }
            /// reads to the end and throws away what it read
            #[verifier::external_body]
            pub fn copy<R: Read>(reader: &mut R, writer: &mut Sink) -> (r: Result<u64>)
                requires (*old(reader)).pos() >= 0
                ensures
                    R::after(&*final(reader), &*old(reader)),
                    (*final(reader)).stream() == (*old(reader)).stream(),
                    (*final(reader)).clean() == (*old(reader)).clean(),
                    (*final(reader)).reliable() == (*old(reader)).reliable(),
                    (*final(reader)).pos() >= (*old(reader)).pos(),
                    match r {
                        Ok(n) => (*old(reader)).clean() && n as int == rest_of(*old(reader)).len()
                            && (*final(reader)).pos() == (*old(reader)).pos() + n,
                        Err(_) => !(*old(reader)).reliable() || !(*old(reader)).clean(),
                    }
            { unimplemented!() }
            pub open spec fn rest_of<R: Read>(r: R) -> Seq<u8> {
                if 0 <= r.pos() <= r.stream().len() { r.stream().subrange(r.pos(), r.stream().len() as int) } else { Seq::empty() }
            }
            impl<R: Read> Read for &mut R {
                open spec fn stream(&self) -> Seq<u8> { (**self).stream() }
                open spec fn pos(&self) -> int { (**self).pos() }
                open spec fn clean(&self) -> bool { (**self).clean() }
                open spec fn reliable(&self) -> bool { (**self).reliable() }
                #[verifier::prophetic]
                open spec fn after(&self, o: &Self) -> bool { *final(*self) == *final(*o) && (**self).after(&**o) }
                #[verifier::external_body]
                fn take(self, limit: u64) -> (r: Take<Self>) { unimplemented!() }
            }
            // not opaque: the verifier has to see that dropping it ends the borrow it may hold
            pub struct Take<R> { pub i: R, pub l: u64 }
            impl<R> Take<R> {
                pub open spec fn inner(&self) -> R { self.i }
                pub open spec fn lim(&self) -> u64 { self.l }
                #[verifier::external_body]
                pub fn limit(&self) -> (r: u64) ensures r == self.lim() { unimplemented!() }
            }
            impl<R: Read> Read for Take<R> {
                open spec fn stream(&self) -> Seq<u8> {
                    let s = self.inner().stream();
                    let e = self.inner().pos() + self.lim();
                    if 0 <= e <= s.len() { s.subrange(0, e) } else { s }
                }
                open spec fn pos(&self) -> int { self.inner().pos() }
                open spec fn clean(&self) -> bool {
                    self.inner().clean() || self.inner().pos() + self.lim() <= self.inner().stream().len()
                }
                open spec fn reliable(&self) -> bool { self.inner().reliable() }
                #[verifier::prophetic]
                open spec fn after(&self, o: &Self) -> bool {
                    self.inner().after(&o.inner()) && self.lim() == o.lim() - (self.inner().pos() - o.inner().pos())
                    && self.inner().stream() == o.inner().stream() && self.inner().clean() == o.inner().clean()
                    && self.inner().reliable() == o.inner().reliable()
                }
                #[verifier::external_body]
                fn take(self, limit: u64) -> (r: Take<Self>) { unimplemented!() }
            }
            #[derive(Clone, Copy)]
            pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
            pub trait Seek: Read {
                fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64>)
                    ensures
                        (*final(self)).stream() == (*old(self)).stream(),
                        (*final(self)).clean() == (*old(self)).clean(),
                        (*final(self)).reliable() == (*old(self)).reliable(),
                        (*final(self)).pos() >= 0,
                        r matches Ok(o) ==> (*final(self)).pos() == o && o as int == seek_target(*old(self), pos),
                        r is Err ==> !(*old(self)).reliable() || !(0 <= seek_target(*old(self), pos) <= i64::MAX),
                ;
                fn stream_position(&mut self) -> (r: Result<u64>)
                    ensures
                        (*final(self)).stream() == (*old(self)).stream(),
                        (*final(self)).clean() == (*old(self)).clean(),
                        (*final(self)).reliable() == (*old(self)).reliable(),
                        r matches Ok(o) ==> (*final(self)).pos() == o && (*final(self)).pos() == (*old(self)).pos(),
                        r is Err ==> !(*old(self)).reliable(),
                ;
            }
            pub open spec fn seek_target<R: Read>(r: R, pos: SeekFrom) -> int {
                match pos {
                    SeekFrom::Start(n) => n as int,
                    SeekFrom::Current(d) => r.pos() + d,
                    SeekFrom::End(d) => r.stream().len() + d,
                }
            }
            #[verifier::external_body]
            #[verifier::accept_recursive_types(R)]
            pub struct BufReader<R> { x: R }
            impl<R: Read> BufReader<R> {
                #[verifier::external_body]
                pub fn new(r: R) -> (b: BufReader<R>)
                    ensures b.stream() == r.stream(), b.pos() == r.pos(), b.clean() == r.clean(), b.reliable() == r.reliable()
                { unimplemented!() }
            }
            impl<R: Read> Read for BufReader<R> {
                uninterp spec fn stream(&self) -> Seq<u8>;
                uninterp spec fn pos(&self) -> int;
                uninterp spec fn clean(&self) -> bool;
                uninterp spec fn reliable(&self) -> bool;
                #[verifier::prophetic]
                open spec fn after(&self, o: &Self) -> bool { true }
                #[verifier::external_body]
                fn take(self, limit: u64) -> (r: Take<Self>) { unimplemented!() }
            }
            impl<R: Read + Seek> Seek for BufReader<R> {
                #[verifier::external_body]
                fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64>) { unimplemented!() }
                #[verifier::external_body]
                fn stream_position(&mut self) -> (r: Result<u64>) { unimplemented!() }
            }
        }
        pub mod path {
            use vstd::prelude::*;
            #[verifier::external_body]
            pub struct Path { x: [u8] }
            impl Path {
                /// which file it names
                pub uninterp spec fn name(&self) -> int;
            }
            impl crate::dep::std::convert::AsRef<Path> for Path {
                open spec fn names(&self) -> int { self.name() }
                #[verifier::external_body]
                fn as_ref(&self) -> (r: &Path) { unimplemented!() }
            }
            impl<Q: ?Sized + crate::dep::std::convert::AsRef<Path>> crate::dep::std::convert::AsRef<Path> for &Q {
                open spec fn names(&self) -> int { (**self).names() }
                #[verifier::external_body]
                fn as_ref(&self) -> (r: &Path) { unimplemented!() }
            }
        }
        pub mod convert {
            use vstd::prelude::*;
            use crate::dep::std::path::Path;
            /// only ever used for paths here
            pub trait AsRef<T: ?Sized> {
                spec fn names(&self) -> int;
                fn as_ref(&self) -> (r: &Path) ensures r.name() == self.names();
            }
        }
        pub mod fs {
            use vstd::prelude::*;
            use crate::dep::std::io::*;
            #[verifier::external_body]
            pub struct File { x: u8 }
            /// what is stored under a path
            pub uninterp spec fn file_at(p: int) -> Seq<u8>;
            impl File {
                #[verifier::external_body]
                pub fn open<P: crate::dep::std::convert::AsRef<crate::dep::std::path::Path>>(p: P) -> (r: Result<File>)
                    ensures r matches Ok(f) ==> f.stream() == file_at(p.names()) && f.pos() == 0
                { unimplemented!() }
            }
            impl Read for File {
                uninterp spec fn stream(&self) -> Seq<u8>;
                uninterp spec fn pos(&self) -> int;
                uninterp spec fn clean(&self) -> bool;
                uninterp spec fn reliable(&self) -> bool;
                #[verifier::prophetic]
                open spec fn after(&self, o: &Self) -> bool { true }
                #[verifier::external_body]
                fn take(self, limit: u64) -> (r: Take<Self>) { unimplemented!() }
            }
            impl Seek for File {
                #[verifier::external_body]
                fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64>) { unimplemented!() }
                #[verifier::external_body]
                fn stream_position(&mut self) -> (r: Result<u64>) { unimplemented!() }
            }
        }
        pub mod str {
            use vstd::prelude::*;
            #[verifier::external_body]
            pub struct Utf8Error { x: u8 }
            /// the text encoded by these bytes, None if they are not valid UTF-8
            pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
            #[verifier::external_body]
            pub fn from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
                ensures match r { Ok(s) => utf8(b@) == Some(s@), Err(_) => utf8(b@) is None }
            { unimplemented!() }
        }
        pub mod ops {
            use vstd::prelude::*;
            #[verifier::external_body]
            #[verifier::accept_recursive_types(T)]
            pub struct RangeInclusive<T> { x: T }
            impl<T> RangeInclusive<T> {
                pub uninterp spec fn lo(&self) -> T;
                pub uninterp spec fn hi(&self) -> T;
                #[verifier::external_body]
                pub fn new(a: T, b: T) -> (r: Self) ensures r.lo() == a, r.hi() == b { unimplemented!() }
                #[verifier::external_body]
                pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
                #[verifier::external_body]
                pub fn start(&self) -> (r: &T) ensures *r == self.lo() { unimplemented!() }
                #[verifier::external_body]
                pub fn end(&self) -> (r: &T) ensures *r == self.hi() { unimplemented!() }
            }
        }
        pub mod collections {
            use vstd::prelude::*;
            use crate::dep::std::ops::RangeInclusive;
            #[verifier::external_body]
            #[verifier::accept_recursive_types(T)]
            pub struct BTreeSet<T> { x: T }
            #[verifier::external_body]
            #[verifier::accept_recursive_types(T)]
            pub struct Range<'a, T> { x: &'a T }
            impl<T> BTreeSet<T> {
                pub uninterp spec fn view(&self) -> Set<T>;
                #[verifier::external_body]
                pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
                #[verifier::external_body]
                pub fn insert(&mut self, x: T) -> (r: bool)
                    ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x)
                { unimplemented!() }
                #[verifier::external_body]
                pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
            }
            /// ascending, without duplicates, exactly the members of the set in the range
            pub open spec fn range_seq(s: Set<i64>, lo: i64, hi: i64, q: Seq<i64>) -> bool {
                &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> q[i] < q[j]
                &&& forall|i: int| 0 <= i < q.len() ==> s.contains(#[trigger] q[i]) && lo <= q[i] <= hi
                &&& forall|x: i64| #![trigger s.contains(x)] #![trigger q.contains(x)] s.contains(x) && lo <= x <= hi ==> q.contains(x)
            }
            impl BTreeSet<i64> {
                /// panics if the range is reversed
                #[verifier::external_body]
                pub fn range<'a>(&'a self, r: RangeInclusive<i64>) -> (i: Range<'a, i64>)
                    requires r.lo() <= r.hi()
                    ensures range_seq(self@, r.lo(), r.hi(), i.rest())
                { unimplemented!() }
            }
            impl<'a, T> Range<'a, T> {
                pub uninterp spec fn rest(&self) -> Seq<T>;
                #[verifier::external_body]
                pub fn next(&mut self) -> (r: Option<&'a T>)
                    ensures
                        match r {
                            Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0]
                                && final(self).rest() == old(self).rest().drop_first(),
                            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
                        },
                { unimplemented!() }
            }
        }

        pub mod slice {
            use vstd::prelude::*;
            #[verifier::external_body]
            #[verifier::accept_recursive_types(T)]
            pub struct Iter<'a, T> { x: &'a [T] }
            impl<'a, T> Iter<'a, T> {
                /// the values still to come
                pub uninterp spec fn rest(&self) -> Seq<T>;
                #[verifier::external_body]
                pub fn next(&mut self) -> (r: Option<&'a T>)
                    ensures
                        match r {
                            Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0]
                                && final(self).rest() == old(self).rest().drop_first(),
                            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
                        },
                { unimplemented!() }
                #[verifier::external_body]
                pub fn size_hint(&self) -> (r: (usize, Option<usize>))
                    ensures r.0 == self.rest().len(), r.1 == Some(r.0),
                { unimplemented!() }
                #[verifier::external_body]
                pub fn len(&self) -> (r: usize)
                    ensures r == self.rest().len(),
                { unimplemented!() }
                #[verifier::external_body]
                pub fn as_slice(&self) -> (r: &'a [T])
                    ensures r@ == self.rest(),
                { unimplemented!() }
                #[verifier::external_body]
                pub fn clone(&self) -> (r: Self)
                    ensures r == *self,
                { unimplemented!() }
            }
            #[verifier::external_body]
            #[verifier::accept_recursive_types(T)]
            pub struct Chunks<'a, T> { x: &'a [T] }
            impl<'a, T> Chunks<'a, T> {
                pub uninterp spec fn rest(&self) -> Seq<T>;
                pub uninterp spec fn size(&self) -> nat;
                #[verifier::external_body]
                pub fn next(&mut self) -> (r: Option<&'a [T]>)
                    ensures
                        final(self).size() == old(self).size(),
                        match r {
                            Some(x) => {
                                let k = if old(self).rest().len() < old(self).size() { old(self).rest().len() } else { old(self).size() };
                                old(self).rest().len() > 0 && x@ == old(self).rest().subrange(0, k as int)
                                && final(self).rest() == old(self).rest().subrange(k as int, old(self).rest().len() as int)
                            },
                            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
                        },
                { unimplemented!() }
            }
        }
    }

    // ------------------------------------------------------------------ protobuf runtime
    pub mod protobuf {
        use vstd::prelude::*;
        use crate::dep::std::io::Read;
        #[verifier::external_body]
        pub struct Error { x: u8 }
        pub type Result<T> = ::std::result::Result<T, Error>;
        /// The message encoded by these bytes; None if they do not parse.
        pub uninterp spec fn parsed<T>(b: Seq<u8>) -> Option<T>;
        pub trait Message: Sized {
            fn new() -> (r: Self)
                ensures r == default_instance::<Self>();
            fn parse_from_bytes(b: &[u8]) -> (r: Result<Self>)
                ensures match r { Ok(m) => parsed::<Self>(b@) == Some(m), Err(_) => parsed::<Self>(b@) is None };
            fn parse_from_reader<R: Read>(reader: &mut R) -> (r: Result<Self>)
                requires
                    (*old(reader)).pos() >= 0,
                ensures
                    R::after(&*final(reader), &*old(reader)),
                    (*final(reader)).stream() == (*old(reader)).stream(),
                    (*final(reader)).clean() == (*old(reader)).clean(),
                    (*final(reader)).reliable() == (*old(reader)).reliable(),
                    (*final(reader)).pos() >= (*old(reader)).pos(),
                    match r {
                        Ok(m) => (*old(reader)).clean() && parsed::<Self>(crate::dep::std::io::rest_of(*old(reader))) == Some(m)
                            && ((*old(reader)).pos() <= (*old(reader)).stream().len() ==> (*final(reader)).pos() == (*old(reader)).stream().len())
                            && ((*old(reader)).pos() > (*old(reader)).stream().len() ==> (*final(reader)).pos() == (*old(reader)).pos()),
                        Err(_) => !(*old(reader)).reliable() || !(*old(reader)).clean()
                            || parsed::<Self>(crate::dep::std::io::rest_of(*old(reader))) is None,
                    };
        }
        impl<T> Message for T {
            #[verifier::external_body]
            fn new() -> (r: Self) { unimplemented!() }
            #[verifier::external_body]
            fn parse_from_bytes(b: &[u8]) -> (r: Result<Self>) { unimplemented!() }
            #[verifier::external_body]
            fn parse_from_reader<R: Read>(reader: &mut R) -> (r: Result<Self>) { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct SpecialFields { x: u8 }

        // -------------------------------------------------------------- the wire format, as the runtime's reader hands it out
        /// The content of one record (what follows its tag). A group (start tag to end tag) counts as one record.
        #[verifier::external_body]
        pub struct Pay { x: u8 }
        pub struct Rec { pub tag: u32, pub pay: Pay }
        /// the number a varint record stands for
        pub uninterp spec fn varint(p: Pay) -> u64;
        /// the bytes of a length-delimited record
        pub uninterp spec fn bytes_in(p: Pay) -> Seq<u8>;
        pub uninterp spec fn chars_in(p: Pay) -> Seq<char>;
        /// the varints in a length-delimited record
        pub uninterp spec fn packed(p: Pay) -> Seq<Pay>;
        /// the message `m` with the fields in a length-delimited record merged into it
        pub uninterp spec fn merged<T>(m: T, p: Pay) -> T;
        // <conversions> of what a varint stands for; runtime.py proves the runtime's own functions against this text
        pub open spec fn cv_i32(n: u64) -> i32 { n as i32 }
        pub open spec fn cv_i64(n: u64) -> i64 { n as i64 }
        pub open spec fn cv_u32(n: u64) -> u32 { n as u32 }
        pub open spec fn cv_u64(n: u64) -> u64 { n }
        pub open spec fn cv_bool(n: u64) -> bool { n != 0 }
        /// zigzag: 0, -1, 1, -2, ...
        pub open spec fn cv_s64(n: u64) -> i64 { if n % 2 == 0 { (n / 2) as i64 } else { (-((n / 2) as int) - 1) as i64 } }
        pub open spec fn cv_s32(n: u64) -> i32 {
            let n = (n as u32) as int;
            if n % 2 == 0 { (n / 2) as i32 } else { (-(n / 2) - 1) as i32 }
        }
        // </conversions>
        pub open spec fn as_i32(p: Pay) -> i32 { cv_i32(varint(p)) }
        pub open spec fn as_i64(p: Pay) -> i64 { cv_i64(varint(p)) }
        pub open spec fn as_u32(p: Pay) -> u32 { cv_u32(varint(p)) }
        pub open spec fn as_u64(p: Pay) -> u64 { cv_u64(varint(p)) }
        pub open spec fn as_bool(p: Pay) -> bool { cv_bool(varint(p)) }
        pub open spec fn as_s64(p: Pay) -> i64 { cv_s64(varint(p)) }
        pub open spec fn as_s32(p: Pay) -> i32 { cv_s32(varint(p)) }
        pub uninterp spec fn enum_from<E>(n: i32) -> EnumOrUnknown<E>;
        pub open spec fn as_enum<E>(p: Pay) -> EnumOrUnknown<E> { enum_from(as_i32(p)) }
        pub open spec fn as_msg<T>(p: Pay) -> T { merged(default_instance::<T>(), p) }

        pub open spec fn d_i32() -> spec_fn(Pay) -> i32 { |p: Pay| as_i32(p) }
        pub open spec fn d_i64() -> spec_fn(Pay) -> i64 { |p: Pay| as_i64(p) }
        pub open spec fn d_u32() -> spec_fn(Pay) -> u32 { |p: Pay| as_u32(p) }
        pub open spec fn d_u64() -> spec_fn(Pay) -> u64 { |p: Pay| as_u64(p) }
        pub open spec fn d_s32() -> spec_fn(Pay) -> i32 { |p: Pay| as_s32(p) }
        pub open spec fn d_s64() -> spec_fn(Pay) -> i64 { |p: Pay| as_s64(p) }
        pub open spec fn d_bool() -> spec_fn(Pay) -> bool { |p: Pay| as_bool(p) }
        pub open spec fn d_enum<E>() -> spec_fn(Pay) -> EnumOrUnknown<E> { |p: Pay| as_enum::<E>(p) }
        pub open spec fn d_msg<T>() -> spec_fn(Pay) -> T { |p: Pay| as_msg::<T>(p) }
        pub open spec fn d_bytes() -> spec_fn(Pay) -> Seq<u8> { |p: Pay| bytes_in(p) }
        pub open spec fn d_chars() -> spec_fn(Pay) -> Seq<char> { |p: Pay| chars_in(p) }

        #[verifier::external_body]
        pub struct UnknownFields { x: u8 }
        impl SpecialFields {
            #[verifier::external_body]
            pub fn mut_unknown_fields(&mut self) -> (r: &mut UnknownFields) { unimplemented!() }
        }
        /// A reader of records: `rest` are those to come, `cur` the one whose tag has been read but not its content.
        #[verifier::external_body]
        pub struct CodedInputStream<'a> { x: &'a u8 }
        impl<'a> CodedInputStream<'a> {
            pub uninterp spec fn rest(&self) -> Seq<Rec>;
            pub uninterp spec fn cur(&self) -> Option<Rec>;
            pub open spec fn at(&self, wire_type: u32) -> bool { self.cur() matches Some(c) && c.tag % 8 == wire_type }
            pub open spec fn done(&self, o: &Self) -> bool { self.cur() is None && self.rest() == o.rest() }
            #[verifier::external_body]
            pub fn read_raw_tag_or_eof(&mut self) -> (r: Result<Option<u32>>)
                requires old(self).cur() is None
                ensures match r {
                    Ok(Some(t)) => old(self).rest().len() > 0 && t == old(self).rest()[0].tag && final(self).cur() == Some(old(self).rest()[0])
                        && final(self).rest() == old(self).rest().drop_first(),
                    Ok(None) => old(self).rest().len() == 0 && final(self).done(old(self)),
                    Err(_) => true,
                }
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_int32(&mut self) -> (r: Result<i32>)
                requires old(self).at(0)
                ensures r matches Ok(v) ==> v == as_i32(old(self).cur()->0.pay) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_repeated_packed_int32_into(&mut self, to: &mut Vec<i32>) -> (r: Result<()>)
                requires old(self).at(2)
                ensures r is Ok ==> final(to)@ == old(to)@ + packed(old(self).cur()->0.pay).map_values(d_i32()) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_int64(&mut self) -> (r: Result<i64>)
                requires old(self).at(0)
                ensures r matches Ok(v) ==> v == as_i64(old(self).cur()->0.pay) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_repeated_packed_int64_into(&mut self, to: &mut Vec<i64>) -> (r: Result<()>)
                requires old(self).at(2)
                ensures r is Ok ==> final(to)@ == old(to)@ + packed(old(self).cur()->0.pay).map_values(d_i64()) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_uint32(&mut self) -> (r: Result<u32>)
                requires old(self).at(0)
                ensures r matches Ok(v) ==> v == as_u32(old(self).cur()->0.pay) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_repeated_packed_uint32_into(&mut self, to: &mut Vec<u32>) -> (r: Result<()>)
                requires old(self).at(2)
                ensures r is Ok ==> final(to)@ == old(to)@ + packed(old(self).cur()->0.pay).map_values(d_u32()) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_uint64(&mut self) -> (r: Result<u64>)
                requires old(self).at(0)
                ensures r matches Ok(v) ==> v == as_u64(old(self).cur()->0.pay) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_repeated_packed_uint64_into(&mut self, to: &mut Vec<u64>) -> (r: Result<()>)
                requires old(self).at(2)
                ensures r is Ok ==> final(to)@ == old(to)@ + packed(old(self).cur()->0.pay).map_values(d_u64()) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_sint32(&mut self) -> (r: Result<i32>)
                requires old(self).at(0)
                ensures r matches Ok(v) ==> v == as_s32(old(self).cur()->0.pay) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_repeated_packed_sint32_into(&mut self, to: &mut Vec<i32>) -> (r: Result<()>)
                requires old(self).at(2)
                ensures r is Ok ==> final(to)@ == old(to)@ + packed(old(self).cur()->0.pay).map_values(d_s32()) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_sint64(&mut self) -> (r: Result<i64>)
                requires old(self).at(0)
                ensures r matches Ok(v) ==> v == as_s64(old(self).cur()->0.pay) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_repeated_packed_sint64_into(&mut self, to: &mut Vec<i64>) -> (r: Result<()>)
                requires old(self).at(2)
                ensures r is Ok ==> final(to)@ == old(to)@ + packed(old(self).cur()->0.pay).map_values(d_s64()) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_bool(&mut self) -> (r: Result<bool>)
                requires old(self).at(0)
                ensures r matches Ok(v) ==> v == as_bool(old(self).cur()->0.pay) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_repeated_packed_bool_into(&mut self, to: &mut Vec<bool>) -> (r: Result<()>)
                requires old(self).at(2)
                ensures r is Ok ==> final(to)@ == old(to)@ + packed(old(self).cur()->0.pay).map_values(d_bool()) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_enum_or_unknown<E>(&mut self) -> (r: Result<EnumOrUnknown<E>>)
                requires old(self).at(0)
                ensures r matches Ok(v) ==> v == as_enum::<E>(old(self).cur()->0.pay) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_bytes(&mut self) -> (r: Result<Vec<u8>>)
                requires old(self).at(2)
                ensures r matches Ok(v) ==> v@ == bytes_in(old(self).cur()->0.pay) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_string(&mut self) -> (r: Result<String>)
                requires old(self).at(2)
                ensures r matches Ok(v) ==> v@ == chars_in(old(self).cur()->0.pay) && final(self).done(old(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_message<T>(&mut self) -> (r: Result<T>)
                requires old(self).at(2)
                ensures r matches Ok(v) ==> v == as_msg::<T>(old(self).cur()->0.pay) && final(self).done(old(self))
            { unimplemented!() }
        }
        pub mod rt {
            use vstd::prelude::*;
            use super::*;
            #[verifier::external_body]
            pub fn read_singular_message_into_field<'a, T>(is: &mut CodedInputStream<'a>, to: &mut MessageField<T>) -> (r: Result<()>)
                requires old(is).at(2)
                ensures r is Ok ==> final(to).opt() == Some(merged(old(to).get(), old(is).cur()->0.pay)) && final(is).done(old(is))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_repeated_packed_enum_or_unknown_into<'a, E>(is: &mut CodedInputStream<'a>, to: &mut Vec<EnumOrUnknown<E>>) -> (r: Result<()>)
                requires old(is).at(2)
                ensures r is Ok ==> final(to)@ == old(to)@ + packed(old(is).cur()->0.pay).map_values(d_enum::<E>()) && final(is).done(old(is))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_unknown_or_skip_group<'a>(tag: u32, is: &mut CodedInputStream<'a>, to: &mut UnknownFields) -> (r: Result<()>)
                requires old(is).cur() is Some, tag == old(is).cur()->0.tag
                ensures r is Ok ==> final(is).done(old(is))
            { unimplemented!() }
        }

        /// An optional sub-message; an absent one reads as the default instance.
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct MessageField<T> { x: Option<Box<T>> }
        pub uninterp spec fn default_instance<T>() -> T;
        impl<T> MessageField<T> {
            pub uninterp spec fn opt(&self) -> Option<T>;
            pub open spec fn get(&self) -> T {
                match self.opt() { Some(x) => x, None => default_instance::<T>() }
            }
            #[verifier::external_body]
            pub fn get_or_default(&self) -> (r: &T) ensures *r == self.get() { unimplemented!() }
            #[verifier::external_body]
            pub fn vp_iter(&self) -> (r: crate::dep::std::slice::Iter<'_, T>)
                ensures r.rest() == (match self.opt() { Some(x) => seq![x], None => Seq::<T>::empty() })
            { unimplemented!() }
            #[verifier::external_body]
            pub fn as_ref(&self) -> (r: Option<&T>)
                ensures match r { Some(x) => self.opt() == Some(*x), None => self.opt() is None }
            { unimplemented!() }
            #[verifier::external_body]
            pub fn is_some(&self) -> (r: bool) ensures r == self.opt() is Some { unimplemented!() }
            #[verifier::external_body]
            pub fn is_none(&self) -> (r: bool) ensures r == self.opt() is None { unimplemented!() }
        }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(E)]
        pub struct EnumOrUnknown<E> { x: ::std::marker::PhantomData<E> }
        impl<E> Copy for EnumOrUnknown<E> {}
        impl<E> Clone for EnumOrUnknown<E> {
            #[verifier::external_body]
            fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
        }
        /// an enum of the generated code: which variant a number stands for (the contract of its from_i32)
        pub trait Numbered: Sized {
            spec fn numbered(n: i32) -> Option<Self>;
        }
        impl<E: Numbered> EnumOrUnknown<E> {
            /// the number stored
            #[verifier::external_body]
            pub fn value(&self) -> (r: i32) ensures self.known() == E::numbered(r) { unimplemented!() }
        }
        impl<E> EnumOrUnknown<E> {
            /// the enum variant stored, None for a value outside of the enum
            pub uninterp spec fn known(&self) -> Option<E>;
            #[verifier::external_body]
            pub fn enum_value(&self) -> (r: ::std::result::Result<E, i32>)
                ensures match r { Ok(e) => self.known() == Some(e), Err(_) => self.known() is None }
            { unimplemented!() }
            #[verifier::external_body]
            pub fn unwrap(&self) -> (r: E)
                requires self.known() is Some
                ensures self.known() == Some(r)
            { unimplemented!() }
        }
    }

    // ------------------------------------------------------------------ byteorder
    pub mod byteorder {
        use vstd::prelude::*;
        use crate::dep::std::io::{Read, ErrorKind};
        pub open spec fn be32(b: Seq<u8>) -> u32 {
            (b[0] * 0x1000000 + b[1] * 0x10000 + b[2] * 0x100 + b[3]) as u32
        }
        pub open spec fn le32(b: Seq<u8>) -> u32 {
            (b[3] * 0x1000000 + b[2] * 0x10000 + b[1] * 0x100 + b[0]) as u32
        }
        #[verifier::external_body]
        pub fn u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == be32(b@) { unimplemented!() }
        #[verifier::external_body]
        pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le32(b@) { unimplemented!() }
        pub trait ByteOrder {
            spec fn u32_of(b: Seq<u8>) -> u32;
            fn read_u32(b: &[u8]) -> (r: u32)
                requires b@.len() >= 4
                ensures r == Self::u32_of(b@.subrange(0, 4));
        }
        pub struct BigEndian;
        pub struct LittleEndian;
        pub type BE = BigEndian;
        pub type NetworkEndian = BigEndian;
        pub type LE = LittleEndian;
        impl ByteOrder for BigEndian {
            open spec fn u32_of(b: Seq<u8>) -> u32 { be32(b) }
            #[verifier::external_body]
            fn read_u32(b: &[u8]) -> (r: u32) { unimplemented!() }
        }
        impl ByteOrder for LittleEndian {
            open spec fn u32_of(b: Seq<u8>) -> u32 { le32(b) }
            #[verifier::external_body]
            fn read_u32(b: &[u8]) -> (r: u32) { unimplemented!() }
        }
        pub trait ReadBytesExt: Read {
            fn read_u32<B: ByteOrder>(&mut self) -> (r: crate::dep::std::io::Result<u32>)
                requires (*old(self)).pos() >= 0
                ensures
                    Self::after(&*final(self), &*old(self)),
                    (*final(self)).stream() == (*old(self)).stream(),
                    (*final(self)).clean() == (*old(self)).clean(),
                    (*final(self)).reliable() == (*old(self)).reliable(),
                    (*final(self)).pos() >= (*old(self)).pos(),
                    match r {
                        Ok(n) => (*old(self)).pos() + 4 <= (*old(self)).stream().len()
                            && (*old(self)).stream().len() <= u64::MAX
                            && (*final(self)).pos() == (*old(self)).pos() + 4
                            && n == B::u32_of((*old(self)).stream().subrange((*old(self)).pos(), (*old(self)).pos() + 4)),
                        Err(e) => if e.k() == ErrorKind::UnexpectedEof {
                            (*old(self)).pos() + 4 > (*old(self)).stream().len()
                        } else {
                            !(*old(self)).reliable() || (!(*old(self)).clean() && (*old(self)).pos() + 4 > (*old(self)).stream().len())
                        },
                    };
        }
        impl<R: Read> ReadBytesExt for R {
            #[verifier::external_body]
            fn read_u32<B: ByteOrder>(&mut self) -> (r: crate::dep::std::io::Result<u32>) { unimplemented!() }
        }
    }

    // ------------------------------------------------------------------ flate2
    pub mod flate2 {
        pub mod read {
            use vstd::prelude::*;
            use crate::dep::std::io::{Read, Take};
            /// what a zlib stream inflates to (up to its end, or to the first defect)
            pub uninterp spec fn inflated(b: Seq<u8>) -> Seq<u8>;
            /// the stream is complete and free of defects
            pub uninterp spec fn inflates(b: Seq<u8>) -> bool;
            #[verifier::external_body]
            #[verifier::accept_recursive_types(R)]
            pub struct ZlibDecoder<R> { x: R }
            impl<'a> ZlibDecoder<&'a [u8]> {
                #[verifier::external_body]
                pub fn new(b: &'a [u8]) -> (r: Self)
                    ensures r.stream() == inflated(b@), r.clean() == inflates(b@), r.pos() == 0, r.reliable()
                { unimplemented!() }
            }
            impl<R> Read for ZlibDecoder<R> {
                uninterp spec fn stream(&self) -> Seq<u8>;
                uninterp spec fn pos(&self) -> int;
                uninterp spec fn clean(&self) -> bool;
                uninterp spec fn reliable(&self) -> bool;
                #[verifier::prophetic]
                open spec fn after(&self, o: &Self) -> bool { true }
                #[verifier::external_body]
                fn take(self, limit: u64) -> (r: Take<Self>) { unimplemented!() }
            }
        }
    }

    // ------------------------------------------------------------------ rayon
    /// What a parallel reduction may do with the mapped items, in any order and with any number of threads: it combines
    /// two of the values it has, in either order, or brings in another identity value, until one value is left.
    pub mod rayon {
        use vstd::prelude::*;
        pub mod prelude {}
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Bag<T> { x: ::std::vec::Vec<T> }
        pub enum Step<T> { Identity, Combine(T, T), Done(T) }
        /// b is a without the values x and y
        pub open spec fn without<T>(a: Seq<T>, x: T, y: T, b: Seq<T>) -> bool {
            exists|i: int, j: int| #![trigger a.remove(i), a.remove(i)[j]]
                0 <= i < a.len() && 0 <= j < a.len() - 1 && x == a[i] && y == a.remove(i)[j] && b == a.remove(i).remove(j)
        }
        impl<T> Bag<T> {
            pub uninterp spec fn view(&self) -> Seq<T>;
            #[verifier::external_body]
            pub fn new() -> (r: Bag<T>)
                ensures r.view() == Seq::<T>::empty()
            { unimplemented!() }
            #[verifier::external_body]
            pub fn put(&mut self, x: T)
                ensures final(self).view() == old(self).view().push(x)
            { unimplemented!() }
            #[verifier::external_body]
            pub fn step(&mut self) -> (r: Step<T>)
                ensures match r {
                    Step::Identity => final(self).view() == old(self).view(),
                    Step::Combine(x, y) => without(old(self).view(), x, y, final(self).view()),
                    Step::Done(x) => old(self).view() == seq![x],
                }
            { unimplemented!() }
        }
    }

    // ------------------------------------------------------------------ memmap2
    pub mod memmap2 {
        use vstd::prelude::*;
        use crate::dep::std::fs::File;
        use crate::dep::std::io::Read;
        #[verifier::external_body]
        pub struct Mmap { x: u8 }
        impl Mmap {
            pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn map(f: &File) -> (r: crate::dep::std::io::Result<Mmap>)
                ensures r matches Ok(m) ==> m.view() == f.stream()
            { unimplemented!() }
        }
        impl ::std::ops::Deref for Mmap {
            type Target = [u8];
            #[verifier::external_body]
            fn deref(&self) -> (r: &[u8]) ensures r@ == self.view() { unimplemented!() }
        }
    }
}
} // verus!
