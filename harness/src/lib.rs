//! Uniform `extern "C"` entry points for every operation of every atomic type.
//!
//! `h_<type>_<op>(p, a, b, o1, o2, out) -> flag`
//! * `p`   the atomic object (memory of the plain type)
//! * `a,b` pointers to operands
//! * `o1`  ordering, `o2` failure ordering (0 relaxed, 1 release, 2 acquire, 3 acqrel, 4 seqcst)
//! * `out` results: `out[0]` value, `out[1]` last closure argument
//! * flag  1 = Ok/true, 0 = Err/false (operations without such a result return 1)
#![no_std]
#![allow(clippy::missing_safety_doc, unexpected_cfgs, unused_macros)]
#![cfg_attr(portable_atomic_unstable_f16, feature(f16))]
#![cfg_attr(portable_atomic_unstable_f128, feature(f128))]

use portable_atomic as pa;
use pa::Ordering;

#[inline(always)]
fn od(x: u32) -> Ordering {
    match x {
        0 => Ordering::Relaxed,
        1 => Ordering::Release,
        2 => Ordering::Acquire,
        3 => Ordering::AcqRel,
        _ => Ordering::SeqCst,
    }
}

macro_rules! h {
    ($tn:tt, $at:ty, $pt:ty, $op:tt, |$p:ident, $a:ident, $b:ident, $o1:ident, $o2:ident, $out:ident| $body:expr) => {
        const _: () = {
            #[export_name = concat!("h_", $tn, "_", $op)]
            pub unsafe extern "C" fn f(
                p: *const $at,
                $a: *const $pt,
                $b: *const $pt,
                $o1: u32,
                $o2: u32,
                $out: *mut $pt,
            ) -> u32 {
                #[allow(unused_unsafe)]
                unsafe {
                    let $p: &$at = &*p;
                    let _ = (&$p, $a, $b, $o1, $o2, $out);
                    $body
                }
            }
        };
    };
}
macro_rules! ret {
    ($out:ident, $e:expr) => {{
        *$out = $e;
        1
    }};
}
macro_rules! unit {
    ($e:expr) => {{
        let () = $e;
        1
    }};
}
macro_rules! res {
    ($out:ident, $e:expr) => {
        match $e {
            Ok(v) => {
                *$out = v;
                1
            }
            Err(v) => {
                *$out = v;
                0
            }
        }
    };
}

// Set by configurations whose target has AMO instructions but no CAS.
#[cfg(vamo8)]
macro_rules! amo8_only { ($($tt:tt)*) => { $($tt)* }; }
#[cfg(not(vamo8))]
macro_rules! amo8_only { ($($tt:tt)*) => {}; }
macro_rules! cas_or_amo8 {
    ($($tt:tt)*) => {
        pa::cfg_has_atomic_cas! { $($tt)* }
        pa::cfg_no_atomic_cas! { amo8_only! { $($tt)* } }
    };
}
#[cfg(vamo)]
macro_rules! amo_only { ($($tt:tt)*) => { $($tt)* }; }
#[cfg(not(vamo))]
macro_rules! amo_only { ($($tt:tt)*) => {}; }
macro_rules! cas_or_amo {
    ($($tt:tt)*) => {
        pa::cfg_has_atomic_cas! { $($tt)* }
        pa::cfg_no_atomic_cas! { amo_only! { $($tt)* } }
    };
}

macro_rules! basic {
    ($tn:tt, $at:ty, $pt:ty) => {
        h!($tn, $at, $pt, "load", |p, a, b, o1, o2, out| ret!(out, p.load(od(o1))));
        h!($tn, $at, $pt, "store", |p, a, b, o1, o2, out| unit!(p.store(*a, od(o1))));
        h!($tn, $at, $pt, "is_lock_free", |p, a, b, o1, o2, out| <$at>::is_lock_free() as u32);
        h!($tn, $at, $pt, "is_always_lock_free", |p, a, b, o1, o2, out| <$at>::is_always_lock_free() as u32);
    };
}
macro_rules! cas {
    ($tn:tt, $at:ty, $pt:ty) => {
        h!($tn, $at, $pt, "cas", |p, a, b, o1, o2, out| res!(out, p.compare_exchange(*a, *b, od(o1), od(o2))));
        h!($tn, $at, $pt, "casw", |p, a, b, o1, o2, out| res!(out, p.compare_exchange_weak(*a, *b, od(o1), od(o2))));
    };
}
macro_rules! swap {
    ($tn:tt, $at:ty, $pt:ty) => {
        h!($tn, $at, $pt, "swap", |p, a, b, o1, o2, out| ret!(out, p.swap(*a, od(o1))));
    };
}
// what AMO instructions of 32 bits suffice for
macro_rules! int_bits {
    ($tn:tt, $at:ty, $pt:ty) => {
        h!($tn, $at, $pt, "fetch_and", |p, a, b, o1, o2, out| ret!(out, p.fetch_and(*a, od(o1))));
        h!($tn, $at, $pt, "fetch_or", |p, a, b, o1, o2, out| ret!(out, p.fetch_or(*a, od(o1))));
        h!($tn, $at, $pt, "fetch_xor", |p, a, b, o1, o2, out| ret!(out, p.fetch_xor(*a, od(o1))));
        h!($tn, $at, $pt, "fetch_not", |p, a, b, o1, o2, out| ret!(out, p.fetch_not(od(o1))));
        h!($tn, $at, $pt, "and", |p, a, b, o1, o2, out| unit!(p.and(*a, od(o1))));
        h!($tn, $at, $pt, "or", |p, a, b, o1, o2, out| unit!(p.or(*a, od(o1))));
        h!($tn, $at, $pt, "xor", |p, a, b, o1, o2, out| unit!(p.xor(*a, od(o1))));
        h!($tn, $at, $pt, "not", |p, a, b, o1, o2, out| unit!(p.not(od(o1))));
        h!($tn, $at, $pt, "bit_set", |p, a, b, o1, o2, out| p.bit_set(*a as u32, od(o1)) as u32);
        h!($tn, $at, $pt, "bit_clear", |p, a, b, o1, o2, out| p.bit_clear(*a as u32, od(o1)) as u32);
        h!($tn, $at, $pt, "bit_toggle", |p, a, b, o1, o2, out| p.bit_toggle(*a as u32, od(o1)) as u32);
    };
}
// what AMO instructions of the type's own width suffice for
macro_rules! int_arith {
    ($tn:tt, $at:ty, $pt:ty) => {
        swap!($tn, $at, $pt);
        h!($tn, $at, $pt, "fetch_add", |p, a, b, o1, o2, out| ret!(out, p.fetch_add(*a, od(o1))));
        h!($tn, $at, $pt, "fetch_sub", |p, a, b, o1, o2, out| ret!(out, p.fetch_sub(*a, od(o1))));
        h!($tn, $at, $pt, "fetch_max", |p, a, b, o1, o2, out| ret!(out, p.fetch_max(*a, od(o1))));
        h!($tn, $at, $pt, "fetch_min", |p, a, b, o1, o2, out| ret!(out, p.fetch_min(*a, od(o1))));
        h!($tn, $at, $pt, "add", |p, a, b, o1, o2, out| unit!(p.add(*a, od(o1))));
        h!($tn, $at, $pt, "sub", |p, a, b, o1, o2, out| unit!(p.sub(*a, od(o1))));
    };
}
// what needs a compare-exchange
macro_rules! int_cas {
    ($tn:tt, $at:ty, $pt:ty) => {
        cas!($tn, $at, $pt);
        h!($tn, $at, $pt, "fetch_nand", |p, a, b, o1, o2, out| ret!(out, p.fetch_nand(*a, od(o1))));
        h!($tn, $at, $pt, "fetch_neg", |p, a, b, o1, o2, out| ret!(out, p.fetch_neg(od(o1))));
        h!($tn, $at, $pt, "neg", |p, a, b, o1, o2, out| unit!(p.neg(od(o1))));
        // declines when the value equals *b, otherwise 3x + a
        h!($tn, $at, $pt, "fetch_update", |p, a, b, o1, o2, out| {
            let (ka, kb) = (*a, *b);
            res!(out, p.fetch_update(od(o1), od(o2), |x| {
                *out.add(1) = x;
                if x == kb { None } else { Some(x.wrapping_add(x).wrapping_add(x).wrapping_add(ka)) }
            }))
        });
    };
}

macro_rules! bool_cas {
    ($tn:tt, $at:ty, $pt:ty) => {
        swap!($tn, $at, $pt);
        cas!($tn, $at, $pt);
        h!($tn, $at, $pt, "fetch_and", |p, a, b, o1, o2, out| ret!(out, p.fetch_and(*a, od(o1))));
        h!($tn, $at, $pt, "fetch_nand", |p, a, b, o1, o2, out| ret!(out, p.fetch_nand(*a, od(o1))));
        h!($tn, $at, $pt, "fetch_or", |p, a, b, o1, o2, out| ret!(out, p.fetch_or(*a, od(o1))));
        h!($tn, $at, $pt, "fetch_xor", |p, a, b, o1, o2, out| ret!(out, p.fetch_xor(*a, od(o1))));
        h!($tn, $at, $pt, "fetch_not", |p, a, b, o1, o2, out| ret!(out, p.fetch_not(od(o1))));
        h!($tn, $at, $pt, "and", |p, a, b, o1, o2, out| unit!(p.and(*a, od(o1))));
        h!($tn, $at, $pt, "or", |p, a, b, o1, o2, out| unit!(p.or(*a, od(o1))));
        h!($tn, $at, $pt, "xor", |p, a, b, o1, o2, out| unit!(p.xor(*a, od(o1))));
        h!($tn, $at, $pt, "not", |p, a, b, o1, o2, out| unit!(p.not(od(o1))));
        // declines when the value equals *b, otherwise x ^ a
        h!($tn, $at, $pt, "fetch_update", |p, a, b, o1, o2, out| {
            let (ka, kb) = (*a, *b);
            res!(out, p.fetch_update(od(o1), od(o2), |x| {
                *out.add(1) = x;
                if x == kb { None } else { Some(x ^ ka) }
            }))
        });
    };
}

macro_rules! ptr_cas {
    ($tn:tt, $t:ty) => {
        basic!($tn, pa::AtomicPtr<$t>, *mut $t);
        cas_or_amo! {
            swap!($tn, pa::AtomicPtr<$t>, *mut $t);
            h!($tn, pa::AtomicPtr<$t>, *mut $t, "fetch_ptr_add", |p, a, b, o1, o2, out| ret!(out, p.fetch_ptr_add(*a as usize, od(o1))));
            h!($tn, pa::AtomicPtr<$t>, *mut $t, "fetch_ptr_sub", |p, a, b, o1, o2, out| ret!(out, p.fetch_ptr_sub(*a as usize, od(o1))));
            h!($tn, pa::AtomicPtr<$t>, *mut $t, "fetch_byte_add", |p, a, b, o1, o2, out| ret!(out, p.fetch_byte_add(*a as usize, od(o1))));
            h!($tn, pa::AtomicPtr<$t>, *mut $t, "fetch_byte_sub", |p, a, b, o1, o2, out| ret!(out, p.fetch_byte_sub(*a as usize, od(o1))));
            h!($tn, pa::AtomicPtr<$t>, *mut $t, "fetch_and", |p, a, b, o1, o2, out| ret!(out, p.fetch_and(*a as usize, od(o1))));
            h!($tn, pa::AtomicPtr<$t>, *mut $t, "fetch_or", |p, a, b, o1, o2, out| ret!(out, p.fetch_or(*a as usize, od(o1))));
            h!($tn, pa::AtomicPtr<$t>, *mut $t, "fetch_xor", |p, a, b, o1, o2, out| ret!(out, p.fetch_xor(*a as usize, od(o1))));
            h!($tn, pa::AtomicPtr<$t>, *mut $t, "bit_set", |p, a, b, o1, o2, out| p.bit_set(*a as usize as u32, od(o1)) as u32);
            h!($tn, pa::AtomicPtr<$t>, *mut $t, "bit_clear", |p, a, b, o1, o2, out| p.bit_clear(*a as usize as u32, od(o1)) as u32);
            h!($tn, pa::AtomicPtr<$t>, *mut $t, "bit_toggle", |p, a, b, o1, o2, out| p.bit_toggle(*a as usize as u32, od(o1)) as u32);
        }
        pa::cfg_has_atomic_cas! {
            cas!($tn, pa::AtomicPtr<$t>, *mut $t);
            h!($tn, pa::AtomicPtr<$t>, *mut $t, "fetch_update", |p, a, b, o1, o2, out| {
                let (ka, kb) = (*a as usize, *b);
                res!(out, p.fetch_update(od(o1), od(o2), |x| {
                    *out.add(1) = x;
                    if x == kb { None } else { Some((x as usize).wrapping_mul(3).wrapping_add(ka) as *mut $t) }
                }))
            });
        }
    };
}

macro_rules! float_cas {
    ($tn:tt, $at:ty, $pt:ty) => {
        basic!($tn, $at, $pt);
        cas_or_amo! {
            swap!($tn, $at, $pt);
            h!($tn, $at, $pt, "fetch_neg", |p, a, b, o1, o2, out| ret!(out, p.fetch_neg(od(o1))));
            h!($tn, $at, $pt, "fetch_abs", |p, a, b, o1, o2, out| ret!(out, p.fetch_abs(od(o1))));
        }
        pa::cfg_has_atomic_cas! {
            cas!($tn, $at, $pt);
            h!($tn, $at, $pt, "fetch_add", |p, a, b, o1, o2, out| ret!(out, p.fetch_add(*a, od(o1))));
            h!($tn, $at, $pt, "fetch_sub", |p, a, b, o1, o2, out| ret!(out, p.fetch_sub(*a, od(o1))));
            h!($tn, $at, $pt, "fetch_max", |p, a, b, o1, o2, out| ret!(out, p.fetch_max(*a, od(o1))));
            h!($tn, $at, $pt, "fetch_min", |p, a, b, o1, o2, out| ret!(out, p.fetch_min(*a, od(o1))));
            // declines when the bits equal *b's, otherwise x + a
            h!($tn, $at, $pt, "fetch_update", |p, a, b, o1, o2, out| {
                let (ka, kb) = (*a, (*b).to_bits());
                res!(out, p.fetch_update(od(o1), od(o2), |x| {
                    *out.add(1) = x;
                    if x.to_bits() == kb { None } else { Some(x + ka) }
                }))
            });
        }
    };
}

macro_rules! amo8_int {
    ($tn:tt, $at:ty, $pt:ty) => {
        basic!($tn, $at, $pt);
        // With only AMO (no CAS) the crate still offers these.
        cas_or_amo! { int_bits!($tn, $at, $pt); }
        cas_or_amo8! { int_arith!($tn, $at, $pt); }
        pa::cfg_has_atomic_cas! { int_cas!($tn, $at, $pt); }
    };
}
macro_rules! amo32_int {
    ($tn:tt, $at:ty, $pt:ty) => {
        basic!($tn, $at, $pt);
        cas_or_amo! { int_bits!($tn, $at, $pt); int_arith!($tn, $at, $pt); }
        pa::cfg_has_atomic_cas! { int_cas!($tn, $at, $pt); }
    };
}

basic!("bool", pa::AtomicBool, bool);
cas_or_amo! { bool_cas!("bool", pa::AtomicBool, bool); }
pa::cfg_has_atomic_8! {
    amo8_int!("u8", pa::AtomicU8, u8);
    amo8_int!("i8", pa::AtomicI8, i8);
}
pa::cfg_has_atomic_16! {
    amo8_int!("u16", pa::AtomicU16, u16);
    amo8_int!("i16", pa::AtomicI16, i16);
}
pa::cfg_has_atomic_32! {
    amo32_int!("u32", pa::AtomicU32, u32);
    amo32_int!("i32", pa::AtomicI32, i32);
    float_cas!("f32", pa::AtomicF32, f32);
}
pa::cfg_has_atomic_64! {
    amo32_int!("u64", pa::AtomicU64, u64);
    amo32_int!("i64", pa::AtomicI64, i64);
    float_cas!("f64", pa::AtomicF64, f64);
}
pa::cfg_has_atomic_128! {
    amo32_int!("u128", pa::AtomicU128, u128);
    amo32_int!("i128", pa::AtomicI128, i128);
}
pa::cfg_has_atomic_ptr! {
    amo32_int!("usize", pa::AtomicUsize, usize);
    amo32_int!("isize", pa::AtomicIsize, isize);
    ptr_cas!("ptr1", u8);
    ptr_cas!("ptr4", u32);
    ptr_cas!("ptr0", ());
    ptr_cas!("ptr24", [u8; 24]);
}
#[cfg(portable_atomic_unstable_f16)]
float_cas!("f16", pa::AtomicF16, f16);
#[cfg(portable_atomic_unstable_f128)]
float_cas!("f128", pa::AtomicF128, f128);

#[export_name = "h_fence"]
pub unsafe extern "C" fn fence(_p: *const u8, _a: *const u8, _b: *const u8, o1: u32, _o2: u32, _out: *mut u8) -> u32 {
    pa::fence(od(o1));
    1
}
#[export_name = "h_compiler_fence"]
pub unsafe extern "C" fn compiler_fence(_p: *const u8, _a: *const u8, _b: *const u8, o1: u32, _o2: u32, _out: *mut u8) -> u32 {
    pa::compiler_fence(od(o1));
    1
}
#[export_name = "h_spin_loop"]
pub unsafe extern "C" fn spin_loop(_p: *const u8, _a: *const u8, _b: *const u8, _o1: u32, _o2: u32, _out: *mut u8) -> u32 {
    pa::hint::spin_loop();
    1
}

// In-place views, construction and layout of the atomic types, one call each, on plain memory at `p`:
// `v_<type>_<op>(p, a, b, o1, o2, out) -> flag`
macro_rules! v {
    ($tn:tt, $pt:ty, $op:tt, |$p:ident, $a:ident, $out:ident| $body:expr) => {
        const _: () = {
            #[export_name = concat!("v_", $tn, "_", $op)]
            pub unsafe extern "C" fn f($p: *mut $pt, $a: *const $pt, _b: *const $pt, _o1: u32, _o2: u32, $out: *mut $pt) -> u32 {
                #[allow(unused_unsafe)]
                unsafe {
                    let _ = ($p, $a, $out);
                    $body
                }
            }
        };
    };
}
macro_rules! views {
    ($tn:tt, $at:ty, $pt:ty, $k:expr) => {
        v!($tn, $pt, "layout", |p, a, out| (core::mem::size_of::<$at>() | core::mem::align_of::<$at>() << 8) as u32);
        v!($tn, $pt, "new", |p, a, out| unit!((p as *mut $at).write(<$at>::new(*a))));
        v!($tn, $pt, "from", |p, a, out| unit!((p as *mut $at).write(<$at>::from(*a))));
        v!($tn, $pt, "default", |p, a, out| unit!((p as *mut $at).write(<$at>::default())));
        v!($tn, $pt, "const", |p, a, out| {
            #[allow(clippy::declare_interior_mutable_const)]
            const C: $at = <$at>::new($k);
            unit!((p as *mut $at).write(C))
        });
        v!($tn, $pt, "const_inner", |p, a, out| {
            const C: $pt = <$at>::new($k).into_inner();
            unit!(*p = C)
        });
        v!($tn, $pt, "static", |p, a, out| {
            struct Sync_($at);
            unsafe impl Sync for Sync_ {}
            static S: Sync_ = Sync_(<$at>::new($k));
            unit!(*p = S.0.load(Ordering::Relaxed))
        });
        v!($tn, $pt, "get_mut", |p, a, out| {
            let m: &mut $pt = (*(p as *mut $at)).get_mut();
            let old = *m;
            *m = *a;
            ret!(out, old)
        });
        v!($tn, $pt, "as_ptr", |p, a, out| {
            let m: *mut $pt = (*(p as *const $at)).as_ptr();
            let old = m.read();
            m.write(*a);
            ret!(out, old)
        });
        v!($tn, $pt, "from_ptr", |p, a, out| {
            let r: &$at = <$at>::from_ptr(p);
            let old = r.load(Ordering::Acquire);
            r.store(*a, Ordering::Release);
            ret!(out, old)
        });
        v!($tn, $pt, "into_inner", |p, a, out| ret!(out, (p as *const $at).read().into_inner()));
        v!($tn, $pt, "second", |p, a, out| {
            // the second element of an array of atomics lies where the second plain value does
            let r: &[$at; 2] = &*(p.wrapping_sub(1) as *const [$at; 2]);
            ret!(out, r[1].load(Ordering::Relaxed))
        });
    };
}
macro_rules! views_bits {
    ($tn:tt, $at:ty, $pt:ty) => {
        v!($tn, $pt, "as_bits", |p, a, out| {
            let r = (*(p as *const $at)).as_bits();
            let old = r.load(Ordering::Acquire);
            r.store((*a).to_bits(), Ordering::Release);
            ret!(out, <$pt>::from_bits(old))
        });
    };
}
const K: u128 = 0x1122_3344_5566_7788_99AA_BBCC_DDEE_FF01;
views!("bool", pa::AtomicBool, bool, true);
pa::cfg_has_atomic_8! {
    views!("u8", pa::AtomicU8, u8, K as u8);
    views!("i8", pa::AtomicI8, i8, K as i8);
}
pa::cfg_has_atomic_16! {
    views!("u16", pa::AtomicU16, u16, K as u16);
    views!("i16", pa::AtomicI16, i16, K as i16);
}
pa::cfg_has_atomic_32! {
    views!("u32", pa::AtomicU32, u32, K as u32);
    views!("i32", pa::AtomicI32, i32, K as i32);
    views!("f32", pa::AtomicF32, f32, 1.0);
    views_bits!("f32", pa::AtomicF32, f32);
}
pa::cfg_has_atomic_64! {
    views!("u64", pa::AtomicU64, u64, K as u64);
    views!("i64", pa::AtomicI64, i64, K as i64);
    views!("f64", pa::AtomicF64, f64, 1.0);
    views_bits!("f64", pa::AtomicF64, f64);
}
pa::cfg_has_atomic_128! {
    views!("u128", pa::AtomicU128, u128, K);
    views!("i128", pa::AtomicI128, i128, K as i128);
}
pa::cfg_has_atomic_ptr! {
    views!("usize", pa::AtomicUsize, usize, K as usize);
    views!("isize", pa::AtomicIsize, isize, K as isize);
    views!("ptr1", pa::AtomicPtr<u8>, *mut u8, 1 as *mut u8);
    views!("ptr24", pa::AtomicPtr<[u8; 24]>, *mut [u8; 24], 1 as *mut [u8; 24]);
}
