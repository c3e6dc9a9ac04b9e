//! Symbolic inputs. Under Kani every `any_*` is an unconstrained solver
//! variable; natively (replay of a counterexample) the same calls read, in the
//! same order, the values the solver returned.
#[cfg(kani)]
mod imp {
    macro_rules! prim { ($($n:ident $t:ty),*) => { $(#[inline] pub fn $n() -> $t { kani::any() })* } }
    prim!(u8_ u8, u16_ u16, u32_ u32, u64_ u64, u128_ u128, i8_ i8, i16_ i16, i32_ i32, i64_ i64, bool_ bool, usize_ usize, f64_ f64, f32_ f32);
    #[inline]
    pub fn assume(c: bool) {
        kani::assume(c);
    }
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! { pub static Q: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) }; }
    fn next(n: usize) -> Vec<u8> {
        let v = Q.with(|q| q.borrow_mut().pop_front());
        match v {
            Some(v) if v.len() == n => v,
            // Values the solver left unconstrained are absent at the end of the list.
            _ => vec![0; n],
        }
    }
    macro_rules! prim { ($($n:ident $t:ty),*) => { $(pub fn $n() -> $t {
        let mut b = [0u8; std::mem::size_of::<$t>()];
        b.copy_from_slice(&next(std::mem::size_of::<$t>()));
        <$t>::from_ne_bytes(b)
    })* } }
    prim!(u8_ u8, u16_ u16, u32_ u32, u64_ u64, u128_ u128, i8_ i8, i16_ i16, i32_ i32, i64_ i64, usize_ usize, f64_ f64, f32_ f32);
    pub fn bool_() -> bool {
        next(1)[0] != 0
    }
    pub struct AssumeFailed;
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed);
        }
    }
}
pub use imp::*;

/// `lo <= v <= hi`
#[inline]
pub fn i32_in(lo: i32, hi: i32) -> i32 {
    let v = i32_();
    assume(v >= lo && v <= hi);
    v
}
#[inline]
pub fn u32_in(lo: u32, hi: u32) -> u32 {
    let v = u32_();
    assume(v >= lo && v <= hi);
    v
}
#[inline]
pub fn u64_in(lo: u64, hi: u64) -> u64 {
    let v = u64_();
    assume(v >= lo && v <= hi);
    v
}
#[inline]
pub fn i64_in(lo: i64, hi: i64) -> i64 {
    let v = i64_();
    assume(v >= lo && v <= hi);
    v
}

/// Reachability witness: the harness is vacuous unless this can be true.
#[macro_export]
macro_rules! witness {
    ($c:expr) => {
        #[cfg(kani)]
        kani::cover!($c);
        #[cfg(not(kani))]
        let _ = $c;
    };
}

/// Marks a recorded finding ("FINDING name"): reported as known while this can be true.
#[macro_export]
macro_rules! finding {
    ($id:literal, $c:expr) => {
        #[cfg(kani)]
        kani::cover!($c, $id);
        #[cfg(not(kani))]
        let _ = $c;
    };
}

/// Declares harnesses: Kani proofs, and natively a table for replay.
#[macro_export]
macro_rules! harnesses {
    ($table:ident $( $(#[solver($s:ident)])? $(#[stub($a:path, $b:path)])* #[unwind($u:literal)] fn $name:ident() $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            $(#[cfg_attr(kani, kani::solver($s))])?
            $(#[cfg_attr(kani, kani::stub($a, $b))])*
            pub fn $name() $body
        )*
        #[allow(dead_code)]
        pub const $table: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
    ($($t:tt)*) => { $crate::harnesses! { TABLE $($t)* } };
}
